#!/usr/bin/env python3
"""C14: walks through regional languages follow the region graph (RegWalk.tla)."""
from common import *
from vlib import main


def run(c):
    c.build("regions")
    out = c.path("regions.ndjson")
    n = 11 if c.thorough else 9
    c.drive("regions", out, 8, 60, n, 3 if c.thorough else 2)
    recs = product.crashes(c, read_ndjson(out), "a walk through regional languages")
    product.isolate(c, "RegWalk", recs, "a walk through regional languages",
                    dict(Walk="a step does not lead to the next region", Words="samples or membership disagree with the region",
                         PrefixesOk="the prefixes are not the regions before", SuffixesOk="prefix and suffix do not cover the region",
                         Continuous="the continuous suffix is not the region before"), tag="w")
    c.extra.update(walks=len(recs), steps=n, exhaustive=f"all walks of {n} steps with at most 6 letters, in both directions")
    c.samples = [dict(id=x["id"], ops=[s["op"] for s in x["steps"]], last=x["steps"][-1]["l"]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["one letter; the walks are exhaustive up to the given number of steps, the tested words are on the grid 1/8"]


if __name__ == "__main__":
    main(run, "C14")
