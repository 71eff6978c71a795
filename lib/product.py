"""Deciding language relations between automata dumped by a driver with Product.tla."""
import re
from vlib import write_ndjson, HarnessError
import ta

INV_OF = {"Related": "the acceptance relation is broken", "Deterministic": "two transitions are enabled at once",
          "Total": "no transition is enabled for some letter"}


def decide(c, cases, detail, tag="cases", timeout=None, maxbad=4):
    """cases: list of ta.product_case(...). Reports a violation for each refuted case (up to maxbad)."""
    def explain(bad, again):
        word = [m for b in again.trace for m in re.findall(r'/\\ act = "([^"]*)"', b)]
        return f"after {word[1:]} (delay = next region)"
    return isolate(c, "Product", cases, detail, INV_OF, explain, tag, timeout, maxbad)


def isolate(c, spec, cases, detail, inv_of=None, explain=None, tag="cases", timeout=None, maxbad=4, cfg=None, env=None):
    """Have TLC check all the cases (an ndjson file read by the specification, whose variable c is the
    case number); every rejected case is checked again on its own and reported."""
    f = c.path(tag + ".ndjson")
    todo = list(cases)
    nbad = 0
    while todo:
        write_ndjson(f, todo)
        r = c.tlc(spec, cfg=cfg, env=dict(env or {}, CASES=f), timeout=timeout)
        if r.ok:
            c.traces += len(todo)
            return
        ids = re.findall(r"^/\\ c = (\d+)", r.out, re.M)
        if "InputOk" in r.violated or not ids:
            raise HarnessError(spec + ": the input is not as specified: " + r.out[-1500:])
        bad = todo.pop(int(ids[0]) - 1)
        write_ndjson(c.path("one.ndjson"), [bad])
        again = c.tlc(spec, cfg=cfg, env=dict(env or {}, CASES=c.path("one.ndjson")))
        if again.ok:
            raise HarnessError(spec + ": the rejection of " + str(bad["id"]) + " did not repeat")
        inv = again.violated[0]
        c.violation(str(bad["id"]), f"{detail}: {(inv_of or {}).get(inv, inv)} {explain(bad, again) if explain else ''}",
                    dict(case=bad, invariant=inv, trace=again.trace[-6:]))
        nbad += 1
        if nbad >= maxbad:
            return


WORD_INV = {"Answers": "the recorded answer differs from the specification's", "Final": "the required acceptance does not hold",
            "InWord": "not a timed word over the alphabet"}


def decide_words(c, cases, detail, tag="words", **kw):
    def explain(bad, again):
        return f"(automata and events in the replay; {len(again.trace)} steps)"
    return isolate(c, "Words", cases, detail, WORD_INV, explain, tag, **kw)


def relations(c, recs, detail):
    """Decides everything a record in the generic format (vt::Rec) asks for."""
    ps, ws = [], []
    for x in recs:
        for k, p in enumerate(x["p"] + x["w"]):
            why = [w for w in map(ta.malformed, p["auts"]) if w]
            if why:
                c.violation(x["id"] + "/" + p["tag"], "malformed automaton: " + why[0], p)
                continue
            cid = f"{x['id']}/{p['tag']}"
            if "word" in p:
                ws.append(ta.word_case(cid, p["rel"], p["auts"], x["sigma"], p["word"]))
            else:
                ps.append(ta.product_case(cid, p["rel"], p["auts"], x["sigma"], p["det"], p["tot"]))
    if ps:
        decide(c, ps, detail)
    if ws:
        decide_words(c, ws, detail)
    return ps, ws


def crashes(c, recs, what, slow=0):
    """Report the records of cases that did not end normally; returns the others. Up to `slow` cases may run
    out of time (learning some random targets takes very long, in particular with all the recording)."""
    good, late = [], []
    n = 0
    for x in recs:
        if "crash" in x:
            if x["crash"] == "timeout" and len(late) < slow:
                late.append(x["id"])
                continue
            n += 1
            if n <= 4:
                c.violation(x["id"], f"{what} did not end normally: {x['crash']}: {x['err'][-300:]}", x)
        else:
            good.append(x)
    if late:
        c.extra["not_finished"] = c.extra.get("not_finished", []) + late
    return good
