#!/usr/bin/env python3
"""C22: importing a JSON description preserves its meaning or is refused."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import main, read_ndjson, REPO
import json, ta, product, otagen

INV = {"Verdict": "a description is refused or imported although it must not be", "Imported": "the imported automaton is not well formed or has other letters",
       "Related": "the imported automaton is a different one", "Deterministic": "the imported automaton is not deterministic"}


def cases_of(c, ds, tag, chunk):
    """Imports the (description, text) pairs with the real parser"""
    d = c.path(tag)
    os.makedirs(d)
    for k, (_, t) in enumerate(ds):
        open(os.path.join(d, f"{k}.json"), "w").write(t)
    out = c.path(tag + "-out.ndjson")
    c.drive("ota", out, 8, 20, d, len(ds), chunk)
    return read_ndjson(out)


def case(x, desc, id):
    y = dict(id=id, d=otagen.project(desc), res=x["res"], K=1, well=0, aut=0, alpha=x.get("alpha", []), json=desc, why=x.get("why", ""))
    if x["res"] == "ok":
        y["well"] = int(ta.malformed(x["aut"]) is None and x["aut"]["d"] == 1 and x["aut"]["n"] == 1)
        if y["well"]:
            y["aut"] = ta._convert(x["aut"], 1, 1)
    return y


def explain(bad, again):
    return f"{bad['res']} {bad['why']}: {json.dumps(bad['json'])}"


def run(c):
    c.build("ota")
    ds = otagen.generate(c.seed, 6000 if c.thorough else 1000)
    sample = json.load(open(os.path.join(REPO, "examples", "example_small.json")))
    sample["tran"] = list(sample["tran"].values())
    ds.append((sample, open(os.path.join(REPO, "examples", "example_small.json")).read()))
    recs = product.crashes(c, cases_of(c, ds, "json", 20), "importing")
    cases = [case(x, ds[int(x["id"].split("-")[1])][0], x["id"]) for x in recs]
    product.isolate(c, "Ota", cases, "importing", INV, explain)

    # Malformed descriptions: each is decided on its own (all are refused by the specification)
    bad = otagen.malformed()
    recs = cases_of(c, [(d, json.dumps(dict(d, tran={str(k): e for k, e in enumerate(d["tran"])}))) for _, d in bad], "malformed", 1)
    single = []
    for x in recs:
        k = int(x["id"].split("-")[1])
        name = "malformed/" + bad[k][0]
        if "crash" in x:
            c.violation(name, f"importing did not end normally: {x['crash']}: {x['err'][-300:]}", dict(x, json=bad[k][1]))
        else:
            single.append(case(x, bad[k][1], name))
    product.isolate(c, "Ota", single, "importing", INV, explain, tag="malformed", maxbad=len(single))
    ok = [x for x in cases if x["res"] == "ok"]
    c.samples = [dict(description=x["json"], outcome=x["res"]) for x in cases[::max(1, len(cases) // 6)]]
    c.extra = dict(descriptions=len(cases), imported=len(ok), refused=len(cases) - len(ok), malformed=len(bad))
    c.assumptions = ["descriptions with at most 4 locations and constants up to 12, a tenth of them with up to 11 locations and constants up to 300, and the kinds of damage listed in lib/otagen.py; for each imported one all timed words are decided"]


if __name__ == "__main__":
    main(run, "C22")
