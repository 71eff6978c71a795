#!/usr/bin/env python3
"""C16: timed words behave as alternating sequences of durations and letters (WordOps.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("words")
    n = 300 * (10 if c.thorough else 1)
    a = (c.seed - 1) * 1013 % 100000
    out = c.path("words.ndjson")
    c.drive("words", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "operating on timed words")
    product.isolate(c, "WordOps", recs, "an operation on timed words", dict(Correct="the result disagrees with the sequences"), tag="w")
    c.extra.update(cases=len(recs), operations=sum(len(x["steps"]) for x in recs))
    c.samples = [dict(id=x["id"], ops=len(x["steps"]), first=x["steps"][:2]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["all pairs of words with at most one letter over two visible and the unobservable letter; seeded longer words; durations are multiples of 1/4"]


if __name__ == "__main__":
    main(run, "C16")
