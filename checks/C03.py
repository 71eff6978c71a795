#!/usr/bin/env python3
"""C03: a reported counterexample distinguishes hypothesis and target (pairs of automata, and the
counterexamples the oracle gave to the learner)."""
from common import *
from vlib import main
import families, ta


def run(c):
    c.build("ops", "learn")
    ops(c, "eqo", 700, "the equivalence oracle", "the reported counterexample", only={"cex"}, build=False)
    # three clocks; large constants and three letters
    ops(c, "wide/eqo", 150, "the equivalence oracle", "the reported counterexample", only={"cex"}, build=False)
    out = c.path("learn.ndjson")
    c.drive("learn", out, 8, 100, *families.learning(c, 0.6))
    ws = []
    for x in read_ndjson(out):
        if "crash" in x:
            continue        # judged by C01/C02
        for n, w in enumerate(x["cexs"]):
            ws.append(ta.word_case(f"{x['id']}/cex{n}", "neq", [x["t"], x["hyps"][n]["a"]], x["sigma"], w))
    product.decide_words(c, ws, "the counterexample given to the learner")
    c.extra["counterexamples_from_learning"] = len(ws)


if __name__ == "__main__":
    main(run, "C03")
