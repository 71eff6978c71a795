#!/usr/bin/env python3
"""C17: the observation table only contains true statements about the target (Table.tla, Cells.tla)."""
from common import *
from vlib import main
import random
import families, tables

INV = dict(Successors="the rows are not the successors of the chosen rows", Rooted="the empty row is not chosen",
           Rows="a row is not the successor of the row it comes from", Distinct="a row or column is represented twice",
           Kept="a recorded row, column, successor or cell was lost or changed", Filled="rows, columns and cells are not aligned")


def explain(bad, again):
    import re
    p = [int(m) for b in again.trace for m in re.findall(r"/\\ p = (\d+)", b)]
    return f"at stage {p[-1:]} ({bad['steps'][p[-1] - 1]['op'] if p and p[-1] else 'start'})"


def run(c):
    c.build("table")
    f = 4 if c.thorough else 2
    out = c.path("stages.ndjson")
    c.drive("table", out, 8, 100, "s", "named:0:0", *families.args("c1s", c.seed, 120 * f), *families.args("c1m", c.seed, 30 * f),
            *families.args("c2s", c.seed, 40 * f), *families.args("c2m", c.seed, 20 * f))
    recs = [x for x in product.crashes(c, read_ndjson(out), "the learning loop", slow=4)]
    c.drive("table", c.path("runs.ndjson"), 8, 100, "l", *families.args("c1l", c.seed, 10 * f), *families.args("c1s", c.seed + 11, 60 * f),
            *families.args("c2c", c.seed, 40 * f),
            *families.args("c1w", c.seed, 12 * f), *families.args("c1x", c.seed, 12 * f),
            *families.args("c1n", c.seed, 12 * f), *families.args("c3s", c.seed, 8 * f))
    recs += [dict(x, id=x["id"] + "/run") for x in product.crashes(c, read_ndjson(c.path("runs.ndjson")), "the learning run", slow=4)]
    product.isolate(c, "Table", tables.table_cases(recs), "the observation table", INV, explain, tag="tables")
    rng = random.Random(c.seed)
    cells = tables.truth_cases(recs, rng, 12000 * f)
    product.isolate(c, "Cells", cells, "a cell of the observation table", dict(Exact="it is not what the target accepts"), tag="cells")
    c.extra.update(learning_runs=len(recs), stages=sum(len(x["steps"]) for x in recs), cells=sum(len(x["cells"]) for x in cells),
                   rows=sum(len(x["rows"]) for x in recs), columns=sum(len(x["cols"]) for x in recs),
                   nontrivial=sum(1 for x in recs if len(x["cols"]) > 1))
    c.samples = [dict(id=x["id"], stages=[s["op"] for s in x["steps"]][:12], rows=len(x["steps"][-1]["rows"]), columns=len(x["steps"][-1]["cols"]))
                 for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["targets from the generated families and the named corpus; the cells of large rows (long durations, many letters) are sampled"]


if __name__ == "__main__":
    main(run, "C17")
