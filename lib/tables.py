"""Projections of the records of the driver "table" to the specifications."""
import random
from math import lcm
import ta, renaming


def table_cases(recs, hyps=False):
    keep = ("step", "used", "closed", "cons", "sat")
    return [dict(id=x["id"], sigma=x["sigma"], rows=x["rows"], cols=x["cols"], cells=[dict(w=y["w"]) for y in x["cells"]],
                 steps=x["steps"], hyps=[{k: h.get(k, []) for k in keep} for h in x["hyps"]] if hyps else []) for x in recs]


def effort(cell, s=1):
    """About how many duration vectors a cell needs"""
    n = 1
    for t in cell["top"]:
        n *= max(1, t) * cell["K"] * s
    return n


def pick(rng, cells, budget, s=1, most=20000):
    """Cells in random order until the budget is used up"""
    cells = [x for x in cells if effort(x, s) <= most]
    rng.shuffle(cells)
    out = []
    for x in cells:
        budget -= effort(x, s) + 20
        if budget < 0:
            break
        out.append(x)
    return out


def truth_cases(recs, rng, budget):
    """The cells of the tables against the target"""
    return [ta.cells_case(x["id"], x["t"], pick(rng, list(x["cells"]), budget)) for x in recs]


def row_cases(recs, rng, budget):
    """The rows at every hypothesis (their cells for the empty column) against the hypothesis"""
    out = []
    for x in recs:
        for k, h in enumerate(x["hyps"], 1):
            st = x["steps"][h["step"] - 1]
            e = [j for j, s in enumerate(st["cols"]) if not x["cols"][s - 1]["w"] and all(b[2] == 0 and b[3] == 1 for b in x["cols"][s - 1]["z"])]
            cells = [x["cells"][r[e[0]] - 1] for r in st["cells"]] if e else []
            out.append(ta.cells_case(f"{x['id']}/h{k}", h["a"], pick(rng, cells, budget, h["a"]["d"])))
    return out


def renaming_cases(recs, rng, count, every=False):
    """The renamings the hypotheses use (the first one recorded for each row), each with the columns
    of its table."""
    out, pairs = [], 0
    for x in recs:
        done, ps = set(), []
        for h in x["hyps"]:
            st = x["steps"][h["step"] - 1]
            for u in h["used"]:
                for t in u["to"] if every else u["to"][:1]:
                    key = (st["rows"][u["i"] - 1], st["rows"][t["j"] - 1], str(t["r"]))
                    cols = [s for s in st["cols"] if (key, s) not in done]
                    done.update((key, s) for s in cols)
                    if cols:
                        ps.append(dict(l=x["rows"][key[0] - 1], r=x["rows"][key[1] - 1], ren=t["r"], cols=[x["cols"][s - 1] for s in cols]))
        if len(ps) > count:
            ps = rng.sample(ps, count)
        ps = [p for p in ps if renaming.grid(p) <= 7]
        pairs += len(ps)
        out += renaming.cases(x["id"], x["t"], ps)
    return out, pairs


def chase_cases(recs, what):
    """what: chains or cexs"""
    out = []
    for x in recs:
        s = x["t"]["d"]
        for h in x["hyps"]:
            s = lcm(s, h["a"]["d"])
        for ch in x[what]:
            s = lcm(s, ch["s"], ch.get("rs", 1))
        if s > 2000 or not x[what]:
            continue
        up = lambda w, m: dict(w=w["w"], d=[d * m for d in w["d"]])
        chains = []
        for ch in x[what]:
            m = s // ch["s"]
            y = dict(step=ch["step"], hyp=ch["hyp"], stuck=ch.get("stuck", 0), words=[up(w, m) for w in ch["words"]],
                     links=[dict(dom=l["dom"], cod=l["cod"], ren=l["ren"], pre=up(l["pre"], m), suf=up(l["suf"], m), img=up(l["img"], m))
                            for l in ch["links"]])
            if what == "chains":
                y.update({"in": ch["in"], "final": ch["final"]})
            else:
                y.update(real=ch["real"], res=[up(w, s // ch["rs"]) for w in ch["res"]])
            chains.append(y)
        out.append(dict(id=x["id"], s=s, auts=[ta._convert(a, s, 0, caps=False) for a in [x["t"]] + [h["a"] for h in x["hyps"]]],
                        rows=x["rows"], cols=x["cols"], steps=[dict(rows=t["rows"], cols=t["cols"], p=t["p"]) for t in x["steps"]],
                        hypstep=[h["step"] for h in x["hyps"]], used=[h["used"] for h in x["hyps"]], chains=chains))
    return out
