#!/usr/bin/env python3
"""C19: counterexample analysis extracts a suffix that really splits (Chase.tla)."""
from common import *
from vlib import main
import families, tables

INV = dict(Follows="the replaced words are not those of the table", Related="a replacement is not by a related word of a chosen row",
           Splits="the suffix does not split although it could", Learned="the suffix did not refine the table",
           Accounted="the hypothesis is not wrong about the words that were told apart")


def run(c):
    c.build("table")
    f = 5 if c.thorough else 2
    out = c.path("runs.ndjson")
    c.drive("table", out, 8, 100, "lx", "named:0:0", *families.args("c1s", c.seed, 150 * f), *families.args("c1m", c.seed, 40 * f),
            *families.args("c1l", c.seed, 8 * f), *families.args("c2s", c.seed, 60 * f), *families.args("c2m", c.seed, 20 * f),
            *families.args("c1w", c.seed, 20 * f), *families.args("c1x", c.seed, 20 * f),
            *families.args("c1n", c.seed, 20 * f), *families.args("c3s", c.seed, 15 * f))
    recs = product.crashes(c, read_ndjson(out), "the learning run", slow=4)
    cases = tables.chase_cases(recs, "cexs")
    product.isolate(c, "Chase", cases, "the analysis of a counterexample", INV, tag="cexs", cfg="Chase_analysis")
    chains = [ch for x in cases for ch in x["chains"]]
    c.extra.update(learning_runs=len(recs), analyses=len(chains), during_learning=sum(ch["real"] for ch in chains),
                   with_suffix=sum(1 for ch in chains if ch["res"]), not_represented=sum(x["skipped"] for x in recs),
                   nontrivial=sum(1 for ch in chains if len(ch["links"]) > 1))
    c.samples = [dict(id=x["id"], s=x["s"], word=x["chains"][0]["words"][0], suffix=x["chains"][0]["res"]) for x in cases[::max(1, len(cases) // 6)]]
    c.assumptions = ["counterexamples of the equivalence oracle and random words of at most 7 letters"]


if __name__ == "__main__":
    main(run, "C19")
