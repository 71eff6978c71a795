#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+/TLC: "
PR = "exhaustive region-product exploration (all timed words) of automata recorded from the real code"
CLAIMED = {
 "C01": (T + PR + ": target vs. learned automaton",
         "Exact for all timed words of every learning run performed (region semantics, complete exploration); the runs themselves are a corpus plus seeded random targets."),
 "C03": (T + "trace validation of counterexamples against the exact word semantics (Words.tla)",
         "Every counterexample returned for seeded pairs (target, mutated hypothesis) and during real learning runs is executed in the specification."),
 "C04": (T + PR + ": target vs. hypothesis declared equal",
         "Exact for all timed words of every pair declared equal."),
 "C05": (T + "replay of TLC-generated tests (one per transition of the configuration graph, Gen.tla) on the real system under learning, and trace validation of recorded histories (Words.tla)",
         "All transitions of the configuration graph over a finite set of delays of every generated automaton; histories are seeded."),
 "C06": (T + "trace validation of recorded query histories against the oracle specification (Oracles.tla)",
         "Every query of every recorded history is checked; histories are seeded."),
 "C08": (T + PR + ": operand vs. complement / completion; determinism and totality in every reachable region",
         "Exact for all timed words of every generated operand."),
 "C09": (T + PR + ": both operands vs. product", "Exact for all timed words of every generated pair."),
 "C10": (T + PR + ": automaton vs. simplified automaton", "Exact for all timed words of every generated automaton."),
 "C12": (T + PR + " (emptiness), and trace validation of sampled words",
         "Emptiness is exact; every sampled word is executed in the specification."),
}
NA = {}
CLAIMED["C11"] = (T + "trace validation of recorded histories of zone operations against the exact meaning of zones as sets of regions (ZoneOps.tla)",
         "Every operation of every recorded history is decided on all regions up to the case's size; histories are seeded.")
CLAIMED["C13"] = (T + "trace validation of recorded histories of operations on timed conditions against the sets of duration vectors they denote (CondOps.tla)",
         "Every operation of every recorded history is decided on a grid fine enough to meet every region; histories are seeded.")
CLAIMED["C14"] = (T + "conformance of every bounded walk over regional elementary languages with exact representatives (RegWalk.tla)",
         "Every walk of successors, prefixes and suffixes up to the bound is replayed on the real classes and checked against the region specification.")
CLAIMED["C15"] = (T + "trace validation of the guard operations against the exact sets of valuations guards denote (Guards.tla)",
         "Every operation on every generated guard is decided on a grid of valuations that meets every region; guards are seeded.")
CLAIMED["C16"] = (T + "laws of the algebra of timed words checked on the specification, trace validation of recorded evaluations of the implementation (WordOps.tla)",
         "All pairs of words with at most one letter, seeded longer words.")
CLAIMED["C25"] = (T + "trace validation of recorded walks over neighbourhoods of regions and of automata before and after guards were relaxed (Neighbours.tla, Handler.tla)",
         "Every observation of every recorded walk is compared to the exact set of regions; walks are seeded.")
CLAIMED["C26"] = (T + "conformance of transitions, assignments and renamings recorded from the real classes with the regions the identification relates (Assignments.tla)",
         "Every recorded transition is fired from every region of the source; cases are seeded.")
CLAIMED["C27"] = (T + "conformance with the joining of boxes in every order as a state machine (Overlaps.tla)",
         "For every recorded location all orders of joining its transitions are explored; locations are seeded.")
CLAIMED["C07"] = (T + "trace validation of recorded symbolic queries: every answer is compared with the acceptance of all duration vectors of the queried language (Cells.tla)",
         "Every recorded answer is decided on a grid meeting every region; queries and targets are seeded.")
CLAIMED["C02"] = (T + "trace validation of recorded learning runs against the observation table as a state machine (Table.tla) and of the handling of counterexamples (Chase.tla); every run has to end",
         "Every recorded run, with short and with long counterexamples; targets are a corpus plus seeded random automata.")
CLAIMED["C17"] = (T + "trace validation of the stages of recorded learning runs against the observation table as a state machine (Table.tla); cells against the target (Cells.tla)",
         "Every stage of every recorded run is a state of the specification; the cells that are checked are decided on a grid meeting every region.")
CLAIMED["C18"] = (T + "trace validation of the tables behind recorded hypotheses (Table.tla), of the renamings they use (Renaming.tla) and of their classification of the rows (Cells.tla)",
         "Every hypothesis of every recorded run; words of rows and renamings are decided on grids meeting every region.")
CLAIMED["C19"] = (T + "trace validation of recorded counterexample analyses (Chase.tla)",
         "Every recorded analysis, of counterexamples of learning runs and of random misjudged words, is executed in the specification.")
CLAIMED["C20"] = (T + "trace validation of recorded row equivalences (Renaming.tla): all pairs of words related by the renaming are continued by all words of the columns",
         "Every recorded answer, positive or negative, is decided on a grid meeting every joint region; rows, columns and targets are seeded.")
CLAIMED["C24"] = (T + "trace validation of recorded replacements of words by related words of chosen rows (Chase.tla)",
         "Every replacement of every recorded word is executed in the specification; words are seeded.")
CLAIMED["C21"] = (T + "trace validation of learning histories and of the determinism check (Determinism.tla): structure, declared constants, pairwise guards",
         "Every hypothesis and result of the recorded runs, and generated automata; for each automaton all clock valuations are decided.")

CLAIMED["C22"] = (T + "the meaning of JSON descriptions given in TLA+ (Ota.tla), compared in lock step with what the real parser returns; refusals checked against the grammar",
         "For every generated description, supported or damaged, the verdict is checked, and for imported ones all timed words are decided.")
CLAIMED["C23"] = (T + "what the shipped executables print is read back and run in lock step with the model that was asked for (Product.tla, Ota.tla)",
         "Random automata with fine constants for printing; the shipped learners within small scales; for each output all timed words are decided.")

HOOKS = ["75b26e3846d99e398e23b86a3db4b44eb6809435"]
def main():
    props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd=f"python3 checks/{i}.py", thorough_cmd=f"VERIF_TIER=thorough python3 checks/{i}.py",
                               evidence_file=f"evidence/{i}.json", technique=CLAIMED[i][0], level="model_checking", level_note=CLAIMED[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check under construction")))
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="LEARNTA_VERIF_HOOKS", enable="the checks compile /repo/src and /repo/include with -DLEARNTA_VERIF_HOOKS", source_commits=HOOKS),
             checks=checks, not_applicable=na,
             notes="Specifications in spec/, conformance drivers in harness/, one script per property in checks/. See DESIGN.md.")
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")
main()
