#!/usr/bin/env python3
"""C24: recognisable languages and their morphisms preserve the answer (Chase.tla)."""
from common import *
from vlib import main
import families, tables

INV = dict(Follows="the replaced words are not those of the table", Related="a replacement is not by a related word of a chosen row",
           Answers="the answers of the language, of its last word, of the automaton and of the target do not agree")


def run(c):
    c.build("table")
    f = 5 if c.thorough else 2
    out = c.path("runs.ndjson")
    c.drive("table", out, 8, 100, "lm", "named:0:0", *families.args("c1s", c.seed + 5, 150 * f), *families.args("c1m", c.seed + 5, 40 * f),
            *families.args("c1l", c.seed, 8 * f), *families.args("c2s", c.seed + 5, 60 * f), *families.args("c2m", c.seed + 5, 20 * f),
            *families.args("c1w", c.seed, 20 * f), *families.args("c1x", c.seed, 20 * f),
            *families.args("c1n", c.seed, 20 * f), *families.args("c3s", c.seed, 15 * f))
    recs = product.crashes(c, read_ndjson(out), "the learning run", slow=4)
    cases = tables.chase_cases(recs, "chains")
    product.isolate(c, "Chase", cases, "the recognisable language of a table", INV, tag="chains")
    chains = [ch for x in cases for ch in x["chains"]]
    c.extra.update(learning_runs=len(recs), words=len(chains), replacements=sum(len(ch["links"]) for ch in chains),
                   not_represented=sum(x["skipped"] for x in recs), nontrivial=sum(1 for ch in chains if len(ch["links"]) > 1))
    c.samples = [dict(id=x["id"], s=x["s"], word=x["chains"][0]["words"][0], replacements=len(x["chains"][0]["links"])) for x in cases[::max(1, len(cases) // 6)]]
    c.assumptions = ["random words of at most 7 letters and words of the rows and columns of the tables of learning runs"]


if __name__ == "__main__":
    main(run, "C24")
