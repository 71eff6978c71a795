#!/usr/bin/env python3
"""C07: symbolic membership queries return exactly the accepted part (Cells.tla)."""
from common import *
from vlib import main
import ta


def cell_cases(recs):
    return [ta.cells_case(x["id"], x["t"], x["cells"]) for x in recs]


def explain(bad, again):
    import re
    k = [int(m) for b in again.trace for m in re.findall(r"/\\ k = (\d+)", b)]
    d = [m for b in again.trace[-1:] for m in re.findall(r"/\\ d = (<<.*?>>)", b)]
    return f"cell {k[-1:]} durations {d} / {bad['cells'][k[-1] - 1]['K'] if k else ''}"


def run(c):
    c.build("symq")
    n = 150 * (6 if c.thorough else 1)
    a = (c.seed - 1) * 499 % 100000
    out = c.path("symq.ndjson")
    c.drive("symq", out, 8, 60, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "answering symbolic membership queries")
    product.isolate(c, "Cells", cell_cases(recs), "symbolic membership", dict(Exact="the answer is not the accepted part"), explain, tag="cells")
    c.extra.update(targets=len(recs), cells=sum(len(x["cells"]) for x in recs), nonempty=sum(x["nontrivial"] for x in recs))
    c.samples = [dict(id=x["id"], cells=len(x["cells"]), first=x["cells"][-1]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["targets with integer constants, at most 2 clocks; words of at most 5 letters with total duration at most 9"]


if __name__ == "__main__":
    main(run, "C07")
