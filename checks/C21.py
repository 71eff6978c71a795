#!/usr/bin/env python3
"""C21: hypotheses and results are well formed and deterministic; the determinism check is exact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import main, read_ndjson
import product, families

INV = {"WellFormed": "an automaton that was handed out is not well formed",
       "ConstantsDeclared": "a guard has a constant beyond the declared maximum of its clock",
       "Deterministic": "an automaton that was handed out is not deterministic",
       "MergedDeterministic": "the branching is still nondeterministic after it was merged",
       "MergedCovers": "merging the branching disabled a letter",
       "MergedOrigin": "merging the branching invented a transition",
       "CheckExact": "the answer of the determinism check is wrong"}


def run(c):
    c.build("learn", "det")
    out = c.path("det.ndjson")
    a = (c.seed - 1) * 401 % 20000
    c.drive("det", out, 8, 20, a, a + (1200 if c.thorough else 150))
    single = product.crashes(c, read_ndjson(out), "the determinism check")
    mout = c.path("merge.ndjson")
    c.drive("det", mout, 8, 20, a, a + (2400 if c.thorough else 300), "merge")
    merges = product.crashes(c, read_ndjson(mout), "merging nondeterministic branching")
    product.isolate(c, "Determinism", merges, "merging nondeterministic branching", INV, tag="merges", cfg="Determinism_merge")
    lout = c.path("learn.ndjson")
    c.drive("learn", lout, 8, 100, *families.learning(c, 2))
    recs = product.crashes(c, read_ndjson(lout), "the learning run")
    runs = []
    for x in recs:
        hs = [dict(aut=h["a"], must=1, flag=int(h["det"])) for h in x["hyps"]]
        # the determinism of the result is not recorded; it has to be deterministic
        hs.append(dict(aut=x["h"], must=1, flag=1))
        runs.append(dict(id=x["id"], history=hs))
    product.isolate(c, "Determinism", single + runs, "well-formedness and determinism", INV)
    flags = [h["flag"] for x in single for h in x["history"]]
    c.samples = [dict(id=x["id"], automata=len(x["history"])) for x in (single + runs)[::max(1, len(single + runs) // 6)]]
    c.extra = dict(automata_checked=len(flags), nondeterministic=flags.count(0), learning_runs=len(runs), merges=sum(len(x['history']) for x in merges),
                   hypotheses=sum(len(x["history"]) for x in runs))
    c.assumptions = ["targets and guards from the generated families; for each automaton all valuations are decided"]


if __name__ == "__main__":
    main(run, "C21")
