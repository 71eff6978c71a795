#!/usr/bin/env python3
"""C05: executing a timed word step by step gives the automaton's acceptance, for any history.
(1) random histories recorded from the real runner are replayed in the specification (Words.tla);
(2) tests generated by TLC from the specification (Gen.tla, every transition of the configuration graph
    on a grid) are executed by the real runner and the real membership oracles."""
from common import *
from vlib import main
import re, ta, families


def run(c):
    c.build("runner")
    # (1)
    n = 640 * (8 if c.thorough else 1)
    a = (c.seed - 1) * 211 % 20000
    out = c.path("hist.ndjson")
    c.drive("runner", out, 8, 60, "hist", a, a + n)
    recs = product.crashes(c, read_ndjson(out), "running a history")
    far = c.path("wide.ndjson")
    c.drive("runner", far, 8, 60, "wide", a, a + n // 3)
    recs += product.crashes(c, read_ndjson(far), "running a long history")
    cases = []
    for x in recs:
        cases.append(ta.behaviour_case(x["id"] + "/history", "any", [x["t"]], x["sigma"], x["K"], x["ev"]))
        if x["count"] != x["runs"]:
            c.violation(x["id"] + "/count", f"the number of runs is reported as {x['count']} after {x['runs']} runs", x)
    product.decide_words(c, cases, "the answers of the system under learning", tag="hist")
    # (2)
    n = 200 * (5 if c.thorough else 1)
    out = c.path("auts.ndjson")
    c.drive("runner", out, 8, 60, "auts", a, a + n)
    cases, seeds = [], {}
    for x in read_ndjson(out):
        K = x["K"]
        k = ta.behaviour_case(x["id"], "any", [x["t"]], x["sigma"], K, [])
        k["cap"] = (x["maxC"] + 1) * K + (K if x["eps"] else 0)
        k["delays"] = [1, K]
        del k["ev"]
        cases.append(k)
        seeds[x["id"]] = x["seed"]
    f = c.path("gen.ndjson")
    write_ndjson(f, cases)
    r = c.tlc("Gen", env=dict(CASES=f))
    if not r.ok:
        raise HarnessError("Gen: " + r.out[-1500:])
    tests = 0
    with open(c.path("tests.txt"), "w") as h:
        # TLC breaks long tuples over several lines
        for m in re.finditer(r'<<\s*"T",\s*"([^"]*)",\s*<<([^>]*)>>\s*>>', r.out):
            h.write(str(seeds[m.group(1)]) + " " + " ".join(re.findall(r'"([^"]*)"', m.group(2))) + "\n")
            tests += 1
    if tests + len(cases) < r.generated:
        raise HarnessError(f"only {tests} of {r.generated} generated tests were read")
    out = c.path("replay.ndjson")
    c.drive("runner", out, 8, 120, "replay", c.path("tests.txt"))
    done = product.crashes(c, read_ndjson(out), "replaying generated tests")
    for x in done:
        c.traces += x["tests"]
        if x["bad"]:
            c.violation(x["id"] + "/replay", f"{x['bad']} of {x['tests']} generated tests fail, e.g. {x['first']}", x)
    c.samples = [dict(id=x["id"], tests=x["tests"], steps=x["steps"]) for x in done[:6]]
    c.extra.update(histories=len(recs), generated_tests=tests, steps=sum(x["steps"] for x in done),
                   nontrivial=len([x for x in recs if any(e["res"] == [1] for e in x["ev"]) and any(e["res"] == [0] for e in x["ev"])]))
    c.assumptions = ["automata from seeded families with up to 3 clocks; histories over durations that are multiples of 1/4",
                     "unobservable transitions are urgent, have closed guards and do not form cycles"]


if __name__ == "__main__":
    main(run, "C05")
