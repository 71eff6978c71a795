#!/usr/bin/env python3
"""C23: the shipped learners print an automaton with the language of their model; printing is faithful."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import main, read_ndjson, HarnessError, REPO, NPROC
from concurrent.futures import ThreadPoolExecutor
import json, random, subprocess
import ta, product, dot, models, otagen

OTA_POOL = 400
OTA_SKIP = set()


def same(a, b):
    """Identical up to the order of the transitions with different letters"""
    def key(x):
        return [[(e["a"], e["t"], e["g"], [(c, k, v if k else v / x["d"]) for c, k, v in e["r"]]) for e in sorted(ts, key=lambda e: e["a"])] for ts in x["st"]]
    return key(a) == key(b)


def printing(c):
    out = c.path("print.ndjson")
    a = (c.seed - 1) * 383 % 20000
    c.drive("print", out, 8, 20, a, a + (3000 if c.thorough else 400))
    cases, n = [], 0
    for x in product.crashes(c, read_ndjson(out), "printing"):
        try:
            y = dot.parse(x["text"], clocks=x["aut"]["n"], eps="ε")
        except dot.Unreadable as e:
            c.violation(x["id"], f"what was printed cannot be read back: {e}", x)
            continue
        why = ta.malformed(y)
        if why or len(y["st"]) != len(x["aut"]["st"]) or y["acc"] != x["aut"]["acc"] or y["init"] != x["aut"]["init"]:
            c.violation(x["id"], f"what was printed is another automaton: {why or 'locations or marks differ'}", x)
            continue
        n += 1
        # exploring fine fractions, large constants and many clocks takes long; identical automata need no
        # exploration, and constants with another value are not what was printed
        top = max([g[2] for a in (x["aut"], y) for ts in a["st"] for e in ts for g in e["g"]] + [0])
        if same(x["aut"], y) and (x["aut"]["n"] > 2 or x["aut"]["d"] > 2 or top > 20):
            continue
        if max(x["aut"]["d"], y["d"]) > 8 or top > 20:
            c.violation(x["id"], "what was printed has other constants than the automaton", x)
            continue
        cases.append(ta.product_case(x["id"], "eq", [x["aut"], y], x["sigma"]))
    product.decide(c, cases, "the printed graph and the automaton differ", tag="print")
    return n


def small_description(k):
    rnd = random.Random(7777 + k)
    while True:
        d = otagen.description(rnd)
        tops = [int(x) for e in d["tran"] for x in e[2].strip("[]()").replace("+", "0").split(",")]
        if len(d["l"]) <= 3 and max(tops + [0]) <= 3 and len(d["sigma"]) <= 2 and not set(d["sigma"]) & set('["'):
            return d, otagen.text(rnd, d)


def executables(c):
    """(name, arguments, models in the order in which they are learned)"""
    runs = []
    for ks in ([1], [2], [3, 1, 2]):
        runs.append(("learn_simple_dta", ks, [models.simple(k) for k in ks]))
    runs.append(("learn_simple_dta", [], [models.simple(1)]))
    runs.append(("learn_simple_dta", [5 + c.seed % 7], [models.simple(5 + c.seed % 7)]))
    runs.append(("learn_unbalanced", [], [models.unbalanced(1)]))
    runs.append(("learn_unbalanced", [2, 1], [models.unbalanced(2), models.unbalanced(1)]))
    for p in ([1, 1, 1], [2, 1, 1], [3, 1, 1], [3, 1, 2], [2, 2, 1], [3, 2, 1], [1, 2, 1], [4, 1, 1], [2, 1, 3]):
        runs.append(("learn_unbalanced_loop", p, [models.unbalanced_loop(*p)]))
    runs.append(("learn_light", [1, 2], [models.light(1), models.light(2)]))
    runs.append(("learn_light", [], [models.light(5)]))
    if c.thorough:
        runs.append(("learn_CAS", [], [None]))
        runs.append(("learn_unbalanced", [3], [models.unbalanced(3)]))
    runs = [(n, [str(x) for x in a], m, None) for n, a, m in runs]
    small = json.load(open(os.path.join(REPO, "examples", "example_small.json")))
    small["tran"] = list(small["tran"].values())
    descs = [(small, None)]
    n = 150 if c.thorough else 30
    for k in range(n):
        i = ((c.seed - 1) * 37 + k) % OTA_POOL
        if i not in OTA_SKIP:
            descs.append(small_description(i))
    for k, (d, text) in enumerate(descs):
        f = os.path.join(REPO, "examples", "example_small.json") if text is None else c.path(f"d{k}.json")
        if text is not None:
            open(f, "w").write(text)
        runs.append(("learn_ota_json", [f], [None], d))
    # malformed or missing files: refused, and nothing learned
    for k, text in enumerate(['{"l": ["1"]}', "", '{"l":["1"],"sigma":["a"],"tran":{"0":["1","a","[0,2]","r","1"],"1":["1","a","[2,+)","r","1"]},"init":"1","accept":["1"]}']):
        f = c.path(f"bad{k}.json")
        open(f, "w").write(text)
        runs.append(("learn_ota_json", [f], "refused", None))
    runs.append(("learn_ota_json", [c.path("missing.json")], "refused", None))
    return runs


def run(c):
    c.build("print")
    n = printing(c)
    names = ["learn_simple_dta", "learn_unbalanced", "learn_unbalanced_loop", "learn_light", "learn_ota_json"] + (["learn_CAS"] if c.thorough else [])
    bdir = c.build_examples(names)
    runs = executables(c)

    def go(x):
        try:
            r = subprocess.run([os.path.join(bdir, x[0]), *x[1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600 if c.thorough else 240, cwd=c.work)
            return r.returncode, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode("utf-8", "replace")
    with ThreadPoolExecutor(NPROC) as ex:
        outs = list(ex.map(go, runs))
    c.log("ran", len(runs), "executables")
    cases, otas = [], []
    for (name, args, ms, desc), (rc, out) in zip(runs, outs):
        key = " ".join([name] + [os.path.basename(a) for a in args])
        info = dict(command=[name] + args, status=rc, output=out[-3000:], description=desc)
        if ms == "refused":
            if rc == 0 or "The learned DTA" in out:
                c.violation(key, f"a description that has to be refused ends with {rc}", info)
            continue
        if rc != 0:
            c.violation(key, f"ends with {rc} instead of 0", info)
            continue
        try:
            ls = [dot.parse(g, eps="ε") for g in dot.graphs(out, "The learned DTA is as follows")]
            ts = [dot.parse(g, eps="ε") for g in dot.graphs(out, "Target DTA\n")]
        except dot.Unreadable as e:
            c.violation(key, f"the output cannot be read: {e}", info)
            continue
        if len(ls) != len(ms) or len(ts) != len(ms):
            c.violation(key, f"{len(ls)} learned automata and {len(ts)} targets are printed, {len(ms)} expected", info)
            continue
        for k, (l, t, m) in enumerate(zip(ls, ts, ms)):
            why = ta.malformed(l) or ta.malformed(t)
            if why:
                c.violation(key, "a printed automaton is malformed: " + why, info)
                continue
            sigma = m[1] if m else sorted(set(desc["sigma"])) if desc else sorted({e["a"] for s in t["st"] for e in s})
            auts = ([m[0]] if m else []) + [t, l]
            cases.append(dict(ta.product_case(f"{key} #{k}", "eq", auts, sigma), command=[name] + args))
            if desc is not None:
                otas.append(dict(id=key, d=otagen.project(desc), res="ok", K=l["d"], well=1, aut=ta._convert(l, l["d"], 1),
                                 alpha=sorted(set(desc["sigma"])), json=desc, why=""))
    product.decide(c, cases, "printed target, learned automaton and model differ")
    # the descriptions have their meaning in Ota.tla
    product.isolate(c, "Ota", otas, "what learn_ota_json printed is not the described language", tag="ota",
                    explain=lambda bad, again: json.dumps(bad["json"]))
    c.samples = [dict(command=x["id"]) for x in cases[::max(1, len(cases) // 6)]]
    c.extra = dict(printed=n, commands=len(runs), learned=len(cases), refused=sum(1 for r in runs if r[2] == "refused"))
    c.assumptions = ["learners within small scales; learn_CAS only in the thorough tier; learn_PC, learn_fddi and learn_fischer are not run because they take too long; learn_accel is not a build target"]


if __name__ == "__main__":
    main(run, "C23")
