#!/usr/bin/env python3
"""C20: a reported row equivalence is a genuine renaming between the rows (Renaming.tla):
(1) rows filled by the membership oracle, all pairs asked with and without given renamings;
(2) the renamings by which hypotheses identify rows in learning runs."""
from common import *
from vlib import main
import random
import families, renaming, tables

INV = dict(Same="the target tells the identified rows apart", Satisfiable="no words satisfy the renaming",
           RightUnique="a clock is related to two", Rejected="a renaming which identifies the rows is rejected",
           Found="no renaming is found although none is needed")


def explain(bad, again):
    return "; ".join(l for b in again.trace[-1:] for l in b.splitlines())[:300]


def run(c):
    c.build("renaming", "table")
    out = c.path("renaming.ndjson")
    n = 120 * (6 if c.thorough else 1)
    a = (c.seed - 1) * 307 % 100000
    c.drive("renaming", out, 8, 60, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "comparing rows")
    cases = []
    for x in recs:
        if x["differ"]:
            c.violation(x["id"] + "/stable", f"{x['differ']} pairs of rows are equivalent or not depending on how it is asked", x)
        cases += renaming.cases(x["id"], x["t"], renaming.recorded(x))
    asked = sum(len(k["pairs"]) for k in cases)
    product.isolate(c, "Renaming", cases, "equivalence of rows", INV, explain, tag="rows")
    out = c.path("table.ndjson")
    f = 3 if c.thorough else 1
    c.drive("table", out, 8, 100, "lq", "named:0:0", *families.args("c1s", c.seed, 80 * f), *families.args("c1m", c.seed, 20 * f),
            *families.args("c2s", c.seed, 30 * f), *families.args("c2m", c.seed, 10 * f),
            *families.args("c1w", c.seed, 5 * f), *families.args("c1x", c.seed, 10 * f),
            *families.args("c1n", c.seed, 10 * f), *families.args("c3s", c.seed, 5 * f))
    learnt = product.crashes(c, read_ndjson(out), "the learning run", slow=4)
    rng = random.Random(c.seed)
    cases, pairs = tables.renaming_cases(learnt, rng, 40)
    product.isolate(c, "Renaming", cases, "identification of rows by a hypothesis", INV, explain, tag="learnt")
    c.extra.update(targets=len(recs), pairs_asked=asked, learning_runs=len(learnt), pairs_of_hypotheses=pairs,
                   nontrivial=sum(1 for k in cases for p in k["pairs"] if p["ren"]))
    c.samples = [dict(id=k["id"], grid=k["K"], pairs=len(k["pairs"]), ren=k["pairs"][0]["ren"]) for k in cases[::max(1, len(cases) // 6)]]
    c.assumptions = ["rows of at most 3 letters and columns of at most 2 letters, integer bounds; all words of them are decided"]


if __name__ == "__main__":
    main(run, "C20")
