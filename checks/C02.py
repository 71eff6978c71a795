#!/usr/bin/env python3
"""C02: a learning run always makes progress and ends normally: (1) every run ends, also with long
counterexamples; (2) the table grows between hypotheses and loses nothing (Table.tla); (3) the suffix of
an analysed counterexample separates what was identified (Chase.tla)."""
from common import *
from vlib import main
import families, tables


def run(c):
    c.build("table", "learn")
    f = 5 if c.thorough else 1
    c.drive("table", c.path("short.ndjson"), 8, 100, "lx", "named:0:0", *families.args("c1s", c.seed + 9, 100 * f), *families.args("c1m", c.seed + 9, 30 * f),
            *families.args("c2s", c.seed + 9, 40 * f), *families.args("c2m", c.seed + 9, 20 * f))
    c.drive("table", c.path("long.ndjson"), 8, 100, "lbx", "named:0:0", *families.args("c1s", c.seed + 2, 150 * f, long=True),
            *families.args("c1m", c.seed + 2, 40 * f, long=True), *families.args("c1l", c.seed + 2, 8 * f, long=True),
            *families.args("c2s", c.seed + 2, 30 * f, long=True), *families.args("c2c", c.seed + 2, 30 * f, long=True))
    recs = product.crashes(c, read_ndjson(c.path("short.ndjson")), "the learning run", slow=4)
    recs += [dict(x, id=x["id"] + "/long") for x in product.crashes(c, read_ndjson(c.path("long.ndjson")), "the learning run with long counterexamples", slow=4)]
    # more runs, which only have to end
    c.drive("learn", c.path("learn.ndjson"), 8, 100, *families.args("c1s", c.seed + 40, 400 * f), *families.args("c1m", c.seed + 40, 100 * f),
            *families.args("c1l", c.seed + 40, 15 * f), *families.args("c2s", c.seed + 40, 60 * f), *families.args("c2m", c.seed + 40, 30 * f),
            *families.args("c1w", c.seed, 60 * f), *families.args("c1x", c.seed, 60 * f),
            *families.args("c1n", c.seed, 60 * f), *families.args("c3s", c.seed, 40 * f))
    more = product.crashes(c, read_ndjson(c.path("learn.ndjson")), "the learning run", slow=4)
    product.isolate(c, "Table", tables.table_cases(recs, hyps=True), "the table between two hypotheses",
                    dict(Progress="the table does not grow", Kept="something recorded is lost"), tag="tables", cfg="Table_progress")
    product.isolate(c, "Chase", tables.chase_cases([dict(x, cexs=[k for k in x["cexs"] if k["real"]]) for x in recs], "cexs"),
                    "handling of a counterexample", dict(Learned="the suffix did not separate what was identified",
                                                         Accounted="it is not a counterexample"), tag="cexs", cfg="Chase_learned")
    c.extra.update(learning_runs=len(recs) + len(more), with_long_counterexamples=sum(x["id"].endswith("/long") for x in recs),
                   equivalence_queries=sum(len(x["hyps"]) for x in recs), nontrivial=sum(1 for x in recs if len(x["hyps"]) > 2))
    c.samples = [dict(id=x["id"], hypotheses=len(x["hyps"])) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["targets from the generated families and the named corpus, which were learned within the time limit on the tree the check was written for",
                     "counterexamples: those of the zone-based oracle, and the longest of random misjudged words of at most 5 letters"]


if __name__ == "__main__":
    main(run, "C02")
