#!/usr/bin/env python3
"""C25: neighbourhoods of regions with imprecise clocks (Neighbours.tla, Handler.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("neighbours")
    n = 800 * (10 if c.thorough else 1)
    a = (c.seed - 1) * 1013 % 100000
    out = c.path("nb.ndjson")
    c.drive("neighbours", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "handling imprecise clocks")
    product.isolate(c, "Neighbours", recs, "neighbourhoods of regions", dict(Correct="the result disagrees with the neighbourhood"), tag="n")
    c.build("cascade")
    m = 1500 * (8 if c.thorough else 1)
    h = c.path("cascade.ndjson")
    c.drive("cascade", h, 8, 30, a, a + m)
    cas = product.crashes(c, read_ndjson(h), "handling imprecise clocks in an automaton")
    product.isolate(c, "Handler", cas, "imprecise clocks in an automaton",
                    dict(Kept="a given transition was changed or removed",
                         Relaxed="a transition enabled in an imprecise situation does not cover its neighbourhood",
                         Justified="an added transition does not widen a given one"), tag="h")
    c.extra.update(cases=len(recs), operations=sum(len(x["steps"]) for x in recs), automata=len(cas),
                   relaxed=sum(x["before"] != x["after"] for x in cas))
    c.samples = [dict(id=x["id"], ops=len(x["steps"]), first=x["steps"][:2]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["regions of up to 4 clocks with values up to 8, seeded walks of 9 steps", "automata assembled from walks, at most 4 clocks before a transition"]


if __name__ == "__main__":
    main(run, "C25")
