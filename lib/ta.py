"""Projection of an automaton dumped by a driver to the shape TimedAutomata.tla expects."""
from math import lcm


def product_case(cid, rel, auts, sigma, det=(), tot=(), **extra):
    """auts: automata as dumped by vt::taJson. Scales all constants to a common denominator,
    numbers the clocks of the product and computes location-dependent caps (validated by the
    specification: CapsOk)."""
    K = 1
    for a in auts:
        K = lcm(K, a["d"])
    off, out = 0, []
    for a in auts:
        out.append(_convert(a, K, off))
        off += out[-1]["n"]
    return dict(id=cid, rel=rel, sigma=list(sigma), n=off, K=K, auts=out, det=list(det), tot=list(tot), **extra)


def word_events(w, K):
    """Events of a run on a dumped word: durations scaled to K"""
    m = K // w["s"]
    ev = [dict(e="pre", v=0, a="", res=[]), dict(e="d", v=w["d"][0] * m, a="", res=[])]
    for a, d in zip(w["w"], w["d"][1:]):
        ev += [dict(e="a", v=0, a=a, res=[]), dict(e="d", v=d * m, a="", res=[])]
    return ev


def word_case(cid, rel, auts, sigma, word):
    K = word["s"]
    for a in auts:
        K = lcm(K, a["d"])
    return behaviour_case(cid, rel, auts, sigma, K, word_events(word, K))


def behaviour_case(cid, rel, auts, sigma, K, ev):
    off, out = 0, []
    for a in auts:
        out.append(_convert(a, K, off, caps=False))
        off += out[-1]["n"]
    return dict(id=cid, rel=rel, sigma=list(sigma), n=off, K=K, auts=out, ev=ev)


def cells_case(cid, aut, cells):
    """The automaton against recorded cells (Cells.tla)"""
    return dict(id=cid, s=aut["d"], aut=_convert(aut, aut["d"], 0, caps=False), cells=cells)


def malformed(a):
    """A reason why the dumped automaton is not well formed, or None."""
    n, ns = a["n"], len(a["st"])
    if len(a["init"]) > 1:
        return "more than one initial state"
    if any(i == 0 for i in a["init"]):
        return "the initial state is not a state"
    if ns and not a["init"]:
        pass  # the empty language
    for s, ts in enumerate(a["st"], 1):
        for e in ts:
            if e["t"] == 0:
                return f"dangling transition target at state {s}"
            for x, _, _c in e["g"]:
                if x >= n:
                    return f"guard of state {s} uses clock {x} of {n}"
            for x, k, v in e["r"]:
                if x >= n or (k == 1 and v >= n):
                    return f"reset of state {s} uses a clock beyond {n}"
    return None


def _convert(a, K, off, caps=True):
    n, d, ns = a["n"], a["d"], len(a["st"])
    m = K // d
    st = []
    eps = False
    for ts in a["st"]:
        o = []
        for e in ts:
            u = [[1, off + i + 1] for i in range(n)]
            for x, k, v in e["r"]:
                u[x] = [1, off + v + 1] if k == 1 else [0, v * m]
            o.append(dict(a=e["a"], t=e["t"], g=[[off + x + 1, op, c * K] for x, op, c in e["g"]], u=u))
            eps = eps or e["a"] == ""
        st.append(o)
    cap = [[-1] * n for _ in range(ns)]
    changed = caps
    while changed:
        changed = False
        for s in range(ns):
            for e in st[s]:
                new = cap[s][:]
                for i, _, c in e["g"]:
                    new[i - off - 1] = max(new[i - off - 1], c)
                if e["t"]:
                    for y in range(n):
                        if e["u"][y][0] == 1:
                            x = e["u"][y][1] - off - 1
                            new[x] = max(new[x], cap[e["t"] - 1][y])
                if new != cap[s]:
                    cap[s] = new
                    changed = True
    init = a["init"][0] if a["init"] else 0
    return dict(init=init, acc=a["acc"], off=off, n=n, st=st, cap=cap, eps=eps)
