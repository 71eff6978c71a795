#!/usr/bin/env python3
"""C26: transitions made from renamings have the right guards and assignments (Assignments.tla)."""
from common import *
from vlib import main

INV = dict(Right="a transition belongs to none of the morphisms it was made from", Complete="a morphism has no transition",
           Lands="a transition does not lead into the target condition", Facts="the library and the sets disagree about a renaming",
           Composes="a composition of assignments is not the composition of the functions", Maps="a word is not mapped as the renaming says")


def run(c):
    c.build("transitions")
    n = 240 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 1013 % 100000 // 6 * 6
    out = c.path("transitions.ndjson")
    c.drive("transitions", out, 8, 30, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "transitions from renamings")
    product.isolate(c, "Assignments", recs, "a renaming or transition", INV, tag="a")
    kinds = {}
    for x in recs:
        kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.extra.update(cases=len(recs), kinds=kinds, fired_transitions=sum(len(x.get("trs", [])) for x in recs))
    c.samples = [dict(id=x["id"], kind=x["kind"], n=x["n"]) for x in recs[::max(1, len(recs) // 6)]]
    c.assumptions = ["up to 4 durations on both sides together, sums up to 2; simple source and target conditions, the source "
                     "also without upper bounds; renamings which are satisfiable together with the conditions"]


if __name__ == "__main__":
    main(run, "C26")
