"""Shared body of the checks on automaton operations (driver ops)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import read_ndjson, write_ndjson, HarnessError
import product


def ops(c, kind, count, what, detail, cpu=60, only=None, build=True):
    if build:
        c.build("ops")
    out = c.path(kind.replace("/", "-") + ".ndjson")
    n = count * (6 if c.thorough else 1)
    a = (c.seed - 1) * 389 % 20000
    c.drive("ops", out, 8, cpu, kind, a, a + n)
    recs = product.crashes(c, read_ndjson(out), what)
    if only:
        for x in recs:
            x["p"] = [p for p in x["p"] if p["tag"] in only]
            x["w"] = [w for w in x["w"] if w["tag"] in only]
        recs = [x for x in recs if x["p"] or x["w"]]
    ps, ws = product.relations(c, recs, detail)
    c.samples = c.samples + [dict(id=x["id"], relations=[p["tag"] for p in x["p"] + x["w"]],
                      locations=[len(y["st"]) for y in (x["p"] + x["w"])[0]["auts"]]) for x in recs[::max(1, len(recs) // 3)]]
    for k, v in dict(inputs=len(recs), relations=len(ps), words=len(ws)).items():
        c.extra[k] = c.extra.get(k, 0) + v
    c.extra.update(nontrivial=c.extra.get("nontrivial", 0) + sum(1 for x in recs if any(any(a["acc"]) and not all(a["acc"]) for p in x["p"] + x["w"] for a in p["auts"][:1])))
    c.assumptions = ["the input automata come from seeded families with at most 2 (products: 4) clocks and constants up to 3, or 3 clocks and constants up to 1, or one clock and constants up to 13; "
                     "for each of them all timed words are decided"]
    return recs, ps, ws
