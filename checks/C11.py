#!/usr/bin/env python3
"""C11: zone operations compute the right set of clock valuations (ZoneOps.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("zones")
    n = 300 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 1009 % 100000
    out = c.path("zones.ndjson")
    c.drive("zones", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "a history of zone operations")
    product.isolate(c, "ZoneOps", recs, "a zone operation",
                    dict(Looks="a test or sample disagrees with the sets", property="the resulting zone is not the meaning of the operation"), tag="z")
    ops = {}
    for x in recs:
        for s in x["steps"]:
            ops[s["op"]] = ops.get(s["op"], 0) + 1
    c.extra.update(histories=len(recs), operations=ops, clocks={n: len([x for x in recs if x["n"] == n]) for n in (1, 2, 3, 4)},
                   nontrivial=sum(1 for x in recs if any(s["op"] == "look" and s["inc"] == 0 for s in x["steps"])))
    c.samples = [dict(id=x["id"], n=x["n"], ops=[s["op"] for s in x["steps"]]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["up to 4 clocks, integer bounds up to 18 / 4 / 2 / 1 for 1 / 2 / 3 / 4 clocks; operations that require a canonical zone get one",
                     "clock values are not negative"]


if __name__ == "__main__":
    main(run, "C11")
