#!/usr/bin/env python3
"""C01: the learned automaton and the target accept the same timed words."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import main, read_ndjson
import ta, product, families


def run(c):
    c.build("learn")
    out = c.path("learn.ndjson")
    c.drive("learn", out, 8, 100, *families.learning(c, 2))
    recs = product.crashes(c, read_ndjson(out), "the learning run")
    cases = []
    for x in recs:
        why = ta.malformed(x["h"])
        if why:
            c.violation(x["id"], "the learned automaton is malformed: " + why, x)
            continue
        cases.append(ta.product_case(x["id"], "eq", [x["t"], x["h"]], x["sigma"]))
    product.decide(c, cases, "learned automaton differs from the target")
    c.samples = [dict(target=x["id"], locations=len(x["h"]["st"]), clocks=x["h"]["n"], queries=x["eq"]) for x in recs[::max(1, len(recs) // 6)]]
    c.extra = dict(learning_runs=len(recs), nontrivial=sum(1 for x in recs if len(x["h"]["st"]) > 1),
                   two_clock_targets=sum(1 for x in recs if x["t"]["n"] > 1))
    c.assumptions = ["targets from the generated families and the named corpus; within them all timed words are decided"]


if __name__ == "__main__":
    main(run, "C01")
