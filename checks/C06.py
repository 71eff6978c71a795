#!/usr/bin/env python3
"""C06: histories of the oracle objects (cache, tests, memo, chain) are behaviours of Oracles.tla."""
from common import *
from vlib import main
import ta

INV = {"MemberAnswer": "a membership answer is not the target's", "MemberCount": "wrong number of membership queries",
       "TestAnswer": "wrong answer of the test-based oracle", "MemoAnswer": "wrong answer of the memoising oracle",
       "MemoCount": "wrong number of equivalence queries", "ChainAnswer": "wrong answer of the chain", "RandomAnswer": "wrong answer of the random tests"}


def run(c):
    c.build("oracles")
    n = 160 * (10 if c.thorough else 1)
    a = (c.seed - 1) * 211 % 20000
    out = c.path("o.ndjson")
    c.drive("oracles", out, 8, 60, a, a + n)
    recs = product.crashes(c, read_ndjson(out), "the history")
    cases = []
    for x in recs:
        auts = [ta._convert(y, x["K"] // y["d"] * y["d"], 0, caps=False) for y in x["auts"]]
        cases.append(dict(id=x["id"], sigma=x["sigma"], auts=auts, ev=x["ev"]))
    def explain(bad, again):
        return f"(event {len(again.trace) - 1})"
    product.isolate(c, "Oracles", cases, "history of oracles", INV, explain)
    c.samples = [dict(id=x["id"], first=x["ev"][0], events=len(x["ev"])) for x in recs[:4]]
    c.extra.update(histories=len(recs), events=sum(len(x["ev"]) for x in recs),
                   nontrivial=sum(1 for x in recs if any(e["e"] == "eq" and e["ans"] and not e["called"] for e in x["ev"])))
    c.assumptions = ["word durations are multiples of 1/4; the wrapped oracles answer as scripted by the driver"]


if __name__ == "__main__":
    main(run, "C06")
