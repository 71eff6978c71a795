#!/usr/bin/env python3
"""C18: hypotheses are built only from cohesive tables and agree with them (Table.tla, Renaming.tla, Cells.tla)."""
from common import *
from vlib import main
import random
import families, tables
from C20 import INV as REN

INV = dict(Closed="a row is not identified with a chosen row", Consistent="equivalent rows have different successors",
           Saturated="a boundary row is not equivalent to its successor", Exterior="a boundary row has no clock at an integer",
           Successors="the rows are not the successors of the chosen rows", Rooted="the empty row is not chosen",
           Rows="a row is not the successor of the row it comes from")


def run(c):
    c.build("table")
    f = 4 if c.thorough else 1
    out = c.path("runs.ndjson")
    c.drive("table", out, 8, 120, "lq", "named:0:0", *families.args("c1s", c.seed + 3, 120 * f), *families.args("c1m", c.seed, 30 * f),
            *families.args("c1l", c.seed, 6 * f), *families.args("c2s", c.seed + 3, 50 * f), *families.args("c2m", c.seed, 20 * f),
            *families.args("c1w", c.seed, 10 * f), *families.args("c1x", c.seed, 10 * f),
            *families.args("c1n", c.seed, 10 * f), *families.args("c3s", c.seed, 5 * f))
    recs = product.crashes(c, read_ndjson(out), "the learning run", slow=4)
    product.isolate(c, "Table", tables.table_cases(recs, hyps=True), "the table behind a hypothesis", INV, tag="tables", cfg="Table_cohesion")
    rng = random.Random(c.seed)
    rows = tables.row_cases(recs, rng, 12000 * f)
    product.isolate(c, "Cells", rows, "a hypothesis against the rows of its table",
                    dict(Exact="a recorded word is classified differently"), tag="rows")
    rens, pairs = tables.renaming_cases(recs, rng, 30)
    product.isolate(c, "Renaming", rens, "identification of rows by a hypothesis", REN, tag="renamings")
    c.extra.update(learning_runs=len(recs), hypotheses=sum(len(x["hyps"]) for x in recs), rows_classified=sum(len(x["cells"]) for x in rows),
                   renamings=pairs, nontrivial=sum(1 for x in recs if len(x["hyps"]) > 1))
    c.samples = [dict(id=x["id"], hypotheses=len(x["hyps"]), identified=len(x["hyps"][-1]["used"])) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["targets from the generated families and the named corpus; words of large rows are sampled"]


if __name__ == "__main__":
    main(run, "C18")
