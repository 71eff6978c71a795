#!/usr/bin/env python3
"""C13: operations on timed conditions compute the right set of duration vectors (CondOps.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("conds")
    n = 400 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 1013 % 100000
    out = c.path("conds.ndjson")
    c.drive("conds", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "a history of operations on timed conditions")
    product.isolate(c, "CondOps", recs, "an operation on timed conditions",
                    dict(Looks="a test, sample or enumeration disagrees with the sets", Tightest="a reported bound is not tight",
                         property="the result is not the meaning of the operation"), tag="z")
    ops = {}
    for x in recs:
        for s in x["steps"]:
            ops[s["op"]] = ops.get(s["op"], 0) + 1
    c.extra.update(histories=len(recs), operations=ops)
    c.samples = [dict(id=x["id"], ops=[s["op"] for s in x["steps"]]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["up to 4 durations; sums up to 5 / 4 / 3 / 2 for 1 / 2 / 3 / 4 durations where a bounded condition is needed",
                     "unbounded conditions (from removing upper bounds) are not concatenated, and not sampled: the library does neither"]


if __name__ == "__main__":
    main(run, "C13")
