#!/usr/bin/env python3
"""C27: transitions which are enabled together are resolved (Overlaps.tla)."""
from common import *
from vlib import main

INV = dict(Resolved="what is left is no result of joining the given transitions", Apart="two remaining transitions are enabled together",
           Covered="a given transition is no longer covered", Tests="a test for overlapping transitions is wrong")


def run(c):
    c.build("merge")
    n = 3000 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 3011 % 500000
    out = c.path("merge.ndjson")
    c.drive("merge", out, 8, 20, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "resolving overlapping transitions")
    product.isolate(c, "Overlaps", recs, "overlapping transitions", INV, tag="j")
    kinds = {}
    for x in recs:
        kinds[x["op"]] = kinds.get(x["op"], 0) + 1
    c.extra.update(cases=len(recs), kinds=kinds, overlapping=sum(1 for x in recs if not x["det"]))
    c.samples = [dict(id=x["id"], op=x["op"], given=sum(len(y["given"]) for y in x["letters"]),
                      left=sum(len(y["left"]) for y in x["letters"])) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["up to 5 transitions on a letter, up to 3 clocks, guards are boxes with constants up to 8 in which every constraint is needed; targets are all accepting or all not"]


if __name__ == "__main__":
    main(run, "C27")
