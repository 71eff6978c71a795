#!/usr/bin/env python3
"""C15: the guard algebra agrees with the sets of values satisfying the guards (Guards.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("guards")
    n = 260 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 1013 % 100000
    out = c.path("guards.ndjson")
    c.drive("guards", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "evaluating guards")
    product.isolate(c, "Guards", recs, "an operation on guards", dict(Correct="the result disagrees with the sets of values"), tag="g")
    ops = {}
    for x in recs:
        for s in x["steps"]:
            ops[s["op"]] = ops.get(s["op"], 0) + 1
    c.extra.update(cases=len(recs), operations=ops)
    c.samples = [dict(id=x["id"], n=x["n"], ops=len(x["steps"]), first=x["steps"][0]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["guards over up to 3 clocks with constants up to 3, over 4 with constants up to 1, 2 with up to 6, 1 with up to 20; all guards of one clock with two comparisons and constants up to 1 (thorough: 2) pairwise",
                     "disjunctions to be negated consist of non-empty guards; adjacency is decided for guards that differ in one clock"]


if __name__ == "__main__":
    main(run, "C15")
