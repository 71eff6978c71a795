#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p("C01", "The learned automaton recognises exactly the target's timed language",
  "When a learning run against a deterministic timed automaton ends, the returned automaton accepts exactly the timed words the target accepts: no accepted word is lost and none is invented, for any durations. This holds for targets with one or several clocks, any integer constants, incomplete transition relations and languages that are empty or universal, whether the run starts with test words or not.",
  ["programs", "inputs"], "All deterministic target automata with integer guards, all alphabets, and all timed words over them.",
  "The learner tests are not even compiled into the suite (learner_test.cc is commented out), and testing compares a handful of words; equality of two timed languages is a statement about uncountably many words.",
  ["include/learner.hh", "include/observation_table.hh", "src/observation_table.cc", "include/timed_automata_equivalence_oracle.hh"],
  [("learning loop", "include/learner.hh:run"), ("hypothesis construction", "src/observation_table.cc:generateHypothesis"),
   ("equivalence oracle", "include/timed_automata_equivalence_oracle.hh:findCounterExample")],
  ["the automaton returned by Learner::run"])

p("C02", "A learning run always makes progress and ends normally",
  "Every learning run ends normally after finitely many equivalence queries: no internal check fails, nothing is thrown, and no round is wasted. Between two equivalence queries the observation table strictly grows (more chosen rows or more columns) and nothing that was recorded is lost. A suffix found by analysing a counterexample becomes part of the columns and separates for good a row from the chosen row it was identified with.",
  ["programs", "histories"], "All deterministic targets that can be learned in reasonable time and all histories of correct counterexamples, including badly chosen or long ones.",
  "Termination is a liveness statement over whole runs; no compiled test drives the learning loop at all.",
  ["include/learner.hh", "include/observation_table.hh", "include/counterexample_analyzer.hh"],
  [("counterexample handling adds a distinguishing suffix or a new prefix", "include/observation_table.hh:handleCEX")],
  ["sequence of hypotheses and counterexamples seen by the equivalence oracle", "exit status of the run"])

p("C03", "A reported counterexample really distinguishes hypothesis and target",
  "Whenever the equivalence oracle returns a timed word, that word is accepted by exactly one of the hypothesis and the target, under the same semantics the membership queries use. Its durations are non-negative and its letters belong to the alphabet.",
  ["programs", "inputs"], "All pairs of deterministic timed automata over the same alphabet.",
  "The tests use two or three fixed pairs of automata; a bogus counterexample needs an unlucky pair of automata (strict bounds, clock copies, nonzero resets).",
  ["include/timed_automata_equivalence_oracle.hh", "include/zone_automaton.hh", "include/symbolic_run.hh", "src/intersection.cc", "src/ta2za.cc"],
  [("witness reconstruction from a symbolic run", "include/symbolic_run.hh:reconstructWord")],
  ["return value of ComplementTimedAutomataEquivalenceOracle::findCounterExample"])

p("C04", "'No counterexample' is only reported for equal timed languages",
  "Whenever the equivalence oracle reports that there is no counterexample, the hypothesis and the target accept exactly the same timed words, in both directions of inclusion. In particular a single differing integer point, a strict instead of a non-strict bound, or a difference reachable only after several resets is found.",
  ["programs", "inputs"], "All pairs of deterministic timed automata over the same alphabet.",
  "Completeness of the search is a statement about all words; the tests check that particular differences are found.",
  ["include/timed_automata_equivalence_oracle.hh", "include/zone_automaton.hh", "src/ta2za.cc", "src/intersection.cc", "include/timed_automaton.hh"],
  [("language inclusion by product with the complement and zone-graph search", "include/timed_automata_equivalence_oracle.hh")],
  ["return value of ComplementTimedAutomataEquivalenceOracle::findCounterExample"])

p("C05", "Executing a timed word gives the automaton's acceptance, for any history",
  "Feeding a timed word to the system under learning, one letter or delay at a time, reports after every step exactly whether the deterministic automaton accepts the timed word read so far: clocks advance by the delay, guards are tested on real values, assignments happen simultaneously, and after a step without enabled transition every longer word is rejected. Each run starts afresh, so an answer never depends on the runs before it.",
  ["programs", "inputs", "histories"], "All deterministic automata (several clocks, copies, constant resets), all timed words, split in any way into delays, and all sequences of runs.",
  "Four small scenarios are tested; copies, swaps, sink behaviour and repeated runs are not.",
  ["include/timed_automaton_runner.hh", "include/membership_oracle.hh", "include/constraint.hh"],
  [("step by letter / step by delay", "include/timed_automaton_runner.hh:step"), ("fresh start", "include/timed_automaton_runner.hh:pre")],
  ["return values of pre/step/post on the system under learning"],
  state=[("current location and clock valuation", "configuration of the automaton", "include/timed_automaton_runner.hh")])

p("C06", "Caching and chaining of oracles never change an answer",
  "Answers given from a cache or memo are the answers the underlying oracle gives, so a cached membership oracle is indistinguishable from an uncached one for any sequence of queries. A chain of equivalence oracles reports 'equal' only if every member does, a recorded counterexample is returned again exactly for hypotheses that still misjudge it, and the reported query counts equal the numbers of queries actually made. Testing, with given or random words, only ever reports words that are judged differently by hypothesis and target.",
  ["histories", "inputs"], "All sequences of membership and equivalence queries, including repeated, interleaved and nearly identical ones.",
  "No test interleaves cached queries; the memoised oracle has no test at all.",
  ["include/membership_oracle.hh", "include/equivalence_oracle_memo.hh", "include/equivalance_oracle_chain.hh", "include/equivalence_oracle_by_test.hh", "include/equivalence_oracle_by_random_test.hh", "include/symbolic_membership_oracle.hh"],
  [("membership cache", "include/membership_oracle.hh"), ("memo of counterexamples", "include/equivalence_oracle_memo.hh"), ("first counterexample wins", "include/equivalance_oracle_chain.hh")],
  ["answers and counters of the oracle objects"])

p("C07", "A symbolic membership query returns exactly the accepted part",
  "Asking for the membership of an elementary language (a word with a constraint on the sums of its durations) returns constraints that hold for exactly those duration vectors of the language whose timed word the target accepts. Asking again, or asking with and without an additional observation suffix, gives the same set.",
  ["programs", "inputs", "histories"], "All deterministic targets and all bounded elementary languages, simple or not.",
  "Three queries on one automaton are tested; exactness is about every duration vector.",
  ["include/symbolic_membership_oracle.hh", "include/elementary_language.hh", "include/timed_condition.hh", "include/timed_condition_set.hh"],
  [("enumeration of simple sub-languages and one concrete query for each", "include/symbolic_membership_oracle.hh:query")],
  ["return value of SymbolicMembershipOracle::query"])

p("C08", "Completion and complement are exact",
  "The complement of a deterministic timed automaton accepts exactly the timed words over the alphabet which the automaton rejects, and completing an automaton does not change its language while making every letter enabled in every reachable configuration. The results are deterministic and the operand still recognises its original language afterwards. Unobservable transitions, which are taken as soon as time makes them possible, are respected: the letters are completed exactly for the time before.",
  ["programs", "inputs"], "All deterministic automata, with any overlap of guards over several clocks, empty automata included, over any alphabet.",
  "Complement is tested on two automata with one or two sample words; the negation of a disjunction of multi-clock guards has exponentially many shapes.",
  ["include/timed_automaton.hh", "include/constraint.hh"],
  [("sink state and negated guards", "include/timed_automaton.hh:makeComplete"), ("negation to disjunctive normal form", "include/constraint.hh:negate")],
  ["automaton returned by complement", "automaton after makeComplete"])

p("C09", "The product automaton recognises exactly the intersection",
  "The product of two deterministic timed automata accepts a timed word if and only if both operands accept it. The operands keep their own languages, and the product stays deterministic and refers only to its own states and clocks. One operand may also take unobservable transitions as soon as time makes them possible.",
  ["programs", "inputs"], "All pairs of deterministic automata with any numbers of clocks and states, including ones with empty language.",
  "One product is built in the tests and only indirectly compared.",
  ["src/intersection.cc", "include/intersection.hh"],
  [("synchronised product with shifted clocks", "src/intersection.cc:intersectionTA")],
  ["automaton produced by intersectionTA"])

p("C10", "Simplifying an automaton never changes its language",
  "Each simplification (the basic, the strong, the zone-based one, and, for automata with one clock, merging of adjacent transitions) leaves the accepted timed language unchanged and leaves a deterministic automaton deterministic. No state, transition or clock that matters for some timed word is dropped, and the result is well formed: transitions lead to its own states and mention only its own clocks.",
  ["programs", "inputs"], "All deterministic automata with redundant, overlapping, adjacent or unreachable parts, clock copies and constant resets.",
  "The tests check sizes of the result for three automata; language preservation is never checked.",
  ["include/timed_automaton.hh", "src/timed_automaton.cc", "include/constraint.hh"],
  [("graph- and zone-based pruning", "src/timed_automaton.cc:simplifyWithZones"), ("clock renaming", "include/timed_automaton.hh:removeUnusedClockVariables"), ("union of adjacent guards", "include/constraint.hh:unionHull")],
  ["automaton before and after each simplification"])

p("C11", "Zone operations compute the right set of clock valuations",
  "For every zone the library builds, intersecting, resetting, letting time pass forwards or backwards, dropping a clock, undoing assignments, closing and comparing produce exactly the set of clock valuations the operation denotes. A zone is reported satisfiable exactly when it contains a valuation, a sampled valuation lies in the zone, and inclusion and equality agree with the sets.",
  ["inputs", "histories"], "All sequences of zone operations on any number of clocks with bounded integer constants.",
  "Each operation is tested on one or two matrices; a wrong bound or strictness flag shows only for particular shapes and sequences.",
  ["include/zone.hh", "include/bounds.hh"],
  [("difference bound matrices kept in canonical form", "include/zone.hh")],
  ["observable contents of the zone after each operation"])

p("C12", "Reachability over zones finds a word exactly when one is accepted",
  "Translating a timed automaton to its zone graph and sampling yields a timed word whenever the automaton accepts any timed word, the word is accepted by the automaton, and nothing is returned when the language is empty. Removing dead states from the zone graph does not change this, and the construction ends for every automaton.",
  ["programs", "inputs"], "All timed automata with nonempty or empty languages, including ones where acceptance needs long loops, exact points or strict bounds.",
  "Sampling is tested on single automata; emptiness is about all words, and extrapolation mistakes need constants on both sides of the maximum.",
  ["src/ta2za.cc", "include/zone_automaton.hh", "include/symbolic_run.hh", "include/zone.hh"],
  [("forward exploration with extrapolation", "src/ta2za.cc"), ("search and reconstruction", "include/zone_automaton.hh:sample")],
  ["result of ZoneAutomaton::sample"])

p("C13", "Timed conditions denote the right sets of duration vectors",
  "Constraints on sums of consecutive durations are combined exactly: concatenation describes the concatenated words, intersection and inclusion agree with the sets, splitting yields pairwise disjoint simple constraints whose union is the original, the convex hull is the least such constraint containing its arguments, and derived guards and renamed constraints hold for the same values. Reported lower and upper bounds of any sum of durations are tight.",
  ["inputs"], "All timed conditions of bounded size with integer bounds, and all pairs of them.",
  "Individual conditions are compared with expected strings; a set equality over real-valued vectors cannot be sampled.",
  ["include/timed_condition.hh", "include/timed_condition_set.hh", "include/elementary_language.hh"],
  [("bounds on sums kept as a zone over prefix sums", "include/timed_condition.hh")],
  ["observable contents (bounds of all sums) of the resulting conditions"])

p("C14", "Walking regional languages follows the region graph",
  "From a regional elementary language, appending a letter or letting time pass gives exactly the next region: it contains the correspondingly extended words, no region is skipped or repeated, and the backward walk prepends in the same exact way. A timed word belongs to exactly the regional language computed from it, sampled words belong to the language they are sampled from, and the order of fractional parts is the one of the sampled words.",
  ["inputs", "histories"], "All timed words with bounded durations and all sequences of letter and delay extensions, forwards and backwards.",
  "The tests follow a few paths of length at most three and compare printed conditions.",
  ["include/forward_regional_elementary_language.hh", "include/backward_regional_elementary_language.hh", "include/fractional_order.hh", "include/elementary_language.hh"],
  [("successor by letter and by time", "include/forward_regional_elementary_language.hh"), ("predecessor by letter and by time", "include/backward_regional_elementary_language.hh"), ("order of fractional parts", "include/fractional_order.hh")],
  ["bounds and fractional order of the regional languages", "sampled words"])

p("C15", "Guard algebra agrees with the set of values satisfying the guard",
  "Negation, conjunction, simplification, satisfiability, weaker-than, adjacency, union hull and conversion to bounds of guards all agree with the sets of clock values that satisfy the guards (weaker-than and adjacency for simplified satisfiable guards, adjacency for guards that differ in one clock). Negating a disjunction of non-empty guards yields guards that hold for exactly the excluded values, and the waiting time computed for a guard is the least after which it holds.",
  ["inputs"], "All conjunctions of up to several constraints with small integer constants over several clocks, in any order and with redundant or contradictory members.",
  "A dozen hand-written guards are tested; order, redundancy and strictness combine to thousands of cases.",
  ["include/constraint.hh", "include/bounds.hh", "include/conjunctive_constraint.hh"],
  [("operations on guards", "include/constraint.hh"), ("bounds arithmetic", "include/bounds.hh")],
  ["results of the guard operations"])

p("C16", "Timed words behave as alternating sequences of durations and letters",
  "Concatenating timed words adds the last duration of the first to the first duration of the second, unobservable letters vanish with their neighbouring durations added up, suffixes and accumulated durations are those of the underlying sequence, and equal words compare and hash equal. Concatenation is associative with the empty word as neutral element, and removing a prefix undoes prepending it.",
  ["inputs"], "All timed words of bounded length, with unobservable letters at any position.",
  "A few words are tested; the algebraic laws quantify over all of them.",
  ["include/timed_word.hh"],
  [("normalisation in the constructor", "include/timed_word.hh")],
  ["letters and durations of the resulting words"])

p("C17", "The observation table only ever contains true statements about the target",
  "At every moment of a run, each cell of the observation table describes exactly which of its timed words the target accepts, the set of rows is closed under taking prefixes, every row beyond the chosen ones is a one-step continuation by a letter or by time, and nothing recorded is ever lost or altered by later refinement. Rows and columns stay aligned and no word set is represented twice.",
  ["histories", "programs"], "All learning runs: every interleaving of closing, consistency repair, time saturation and counterexample handling.",
  "The table tests run one automaton for a few steps and compare sizes and messages.",
  ["include/observation_table.hh", "src/observation_table.cc"],
  [("table maintenance", "include/observation_table.hh:refreshTable, moveToP, observePrefix")],
  ["projection of the table at each stage of the learning loop"],
  state=[("P, ext(P), S, table", "chosen prefixes, their continuations, suffixes, and cells", "include/observation_table.hh")],
  hook="read-only projection of the table (P, continuations, S, cells) and stage events of the learning loop")

p("C18", "Hypotheses are built only from cohesive tables and agree with them",
  "A hypothesis is constructed only when every continuation is matched with a chosen row by a valid renaming, equal rows have equal continuations, and the rows are time-saturated. The hypothesis then classifies every timed word of every row of the table, chosen or not, exactly as recorded.",
  ["histories", "programs"], "All learning runs and all hypotheses built on the way, including the intermediate ones.",
  "Only final results are ever looked at by a user; an intermediate hypothesis that contradicts known answers still passes the tests and merely costs extra queries or loses words.",
  ["src/observation_table.cc", "include/observation_table.hh", "include/internal_transition_maker.hh", "include/external_transition_maker.hh", "include/recognizable_languages.hh"],
  [("closedness, consistency, exterior consistency, time saturation", "include/observation_table.hh"), ("construction of locations and transitions", "src/observation_table.cc:generateHypothesis")],
  ["table projection and hypothesis at each equivalence query"], hook="as C17")

p("C19", "Counterexample analysis extracts a suffix that really splits",
  "Given a timed word on which the hypothesis disagrees with the target, the analysis returns a suffix of that word together with the split position at which replacing the prefix by its representative changes the target's answer. Adding that suffix makes two rows distinguishable which were identified before.",
  ["programs", "inputs"], "All targets, hypotheses and genuine counterexamples of any length and split granularity.",
  "Two hand-made counterexamples are analysed in the tests.",
  ["include/counterexample_analyzer.hh", "include/observation_table.hh", "include/recognizable_languages.hh"],
  [("binary search over the replaced prefixes", "include/counterexample_analyzer.hh:analyzeCEX"), ("extending the suffixes", "include/observation_table.hh:handleCEX")],
  ["suffix returned by the analysis", "table before and after handling"])

p("C20", "A reported row equivalence is a genuine renaming between the rows",
  "When two rows are declared equivalent, the reported relation between their durations really maps the acceptance of each column in one row to the acceptance in the other for all duration vectors, and it relates each duration sum of the target row to at most one of the source. A given relation is rejected only if it does not identify the rows. Every row is found to be equivalent to itself, and rows that need no relation between their durations are found to be equivalent. The answer does not depend on how or how often it is asked.",
  ["inputs", "programs"], "All pairs of simple rows over all column sets arising from deterministic targets.",
  "Equivalence is tested on selected pairs of conditions; correctness of a witness is a statement over all duration vectors.",
  ["include/equivalence.hh", "include/renaming_relation.hh", "include/juxtaposed_zone.hh", "include/juxtaposed_zone_set.hh"],
  [("candidate renamings and check by juxtaposed zones", "include/equivalence.hh:findEquivalentRenaming, equivalence")],
  ["return value of the equivalence functions"])

p("C21", "Every automaton handed out is well formed and deterministic",
  "Every hypothesis given to the equivalence oracle and the final result is a well-formed deterministic automaton: at most one initial state, transitions to its own states, guards over its own clocks with constants within the declared maxima, assignments within its clocks, and no timed word with two runs. The library's determinism check says 'deterministic' exactly for automata in which no two transitions with the same label can be enabled together in one state, and merging the branching of a state leaves no such pair.",
  ["programs", "histories"], "All hypotheses of all learning runs, and all automata given to the determinism check.",
  "The determinism check itself is the only guard in the code and is not tested against an independent definition.",
  ["include/timed_automaton.hh", "src/observation_table.cc", "src/timed_automaton.cc"],
  [("splitting and merging of nondeterministic branching", "src/timed_automaton.cc"), ("determinism check", "include/timed_automaton.hh:deterministic")],
  ["hypotheses seen by the equivalence oracle", "value of deterministic()"])

p("C22", "Importing a JSON automaton preserves its meaning or is refused",
  "A one-clock automaton read from its JSON description accepts exactly the timed words the description defines: initial and accepting locations, letters, open/closed/unbounded intervals, and which transitions reset the clock. Descriptions that are not supported or not deterministic are refused with an error and never turned into a different automaton.",
  ["inputs"], "All well-formed descriptions (any number of locations, transitions and intervals) and all malformed or nondeterministic ones.",
  "No test reads a JSON file; the format has four bound shapes per side and infinity.",
  ["examples/ota_json_parser.hh", "examples/learn_ota_json.cc"],
  [("parsing of locations, guards, resets", "examples/ota_json_parser.hh")],
  ["target returned by the parser", "exceptions"])

p("C23", "What the command-line learners print is the target's language",
  "Running one of the shipped learners ends with exit status zero and prints, as its learned automaton, a graph whose language equals the language of the model it was asked to learn. Printing an automaton is faithful: states, initial and accepting marks, letters, guards and assignments can be read back to an automaton with the same language.",
  ["programs", "configurations"], "All automata, and all parameters of the shipped learners within small scales.",
  "The executables are never run by the tests, and printing is not tested.",
  ["examples/experiment_runner.hh", "examples/learn_simple_dta.cc", "examples/learn_unbalanced.cc", "examples/learn_unbalanced_loop.cc", "examples/learn_ota_json.cc", "include/timed_automaton.hh"],
  [("experiment driver", "examples/experiment_runner.hh"), ("printing", "include/timed_automaton.hh:operator<<")],
  ["standard output and error of the executables"])

p("C24", "Recognisable languages and their morphisms preserve the answer",
  "The language description extracted from a table decides every timed word exactly as the automaton built from it: replacing a continuation by its representative through the recorded renaming leads to a word of the representative row with the same future. Mapping a word through a renaming yields durations that satisfy the related equations and lie in the target row.",
  ["inputs", "programs"], "All timed words and all tables of learning runs; all renamings between simple rows.",
  "Six words are mapped in the tests.",
  ["include/recognizable_languages.hh", "include/single_morphism.hh", "include/renaming_relation.hh"],
  [("application of a morphism", "include/single_morphism.hh:apply"), ("membership in a recognisable language", "include/recognizable_languages.hh:contains")],
  ["mapped words and membership answers"])

p("C25", "Guard relaxation for imprecise clocks never excludes a real behaviour",
  "When an assignment stores a representative value for a clock whose exact value is only known up to its region, the conditions derived for the following steps hold for every value the clock may really have: the neighbourhood of a region contains the region and exactly the regions that differ only in the imprecise clocks. Precise clocks are never relaxed. In an automaton, every transition that may be taken in such a situation, now or later, is accompanied by one whose guard covers the whole neighbourhood and which carries the precise values over; given transitions are never changed, and an added one only widens a given one.",
  ["inputs", "histories"], "All regional languages, all sets of precise clocks, all sequences of letter and time steps from them, and all automata reached in such situations.",
  "The tests list neighbours of a few hand-written conditions.",
  ["include/neighbor_conditions.hh", "include/imprecise_clock_handler.hh"],
  [("neighbourhood construction and successors", "include/neighbor_conditions.hh")],
  ["guards and predicates offered by the neighbourhood objects"])

p("C26", "Transitions made from identifications of words carry them over exactly",
  "Identifying the words of a source condition with those of a target condition by a renaming yields a transition which is enabled exactly where every clock has a value it takes in the source condition and which leads to the given location. It gives every clock of the target the value the identification forces: its only value in the target condition, or the value of a source clock that is equal to it in all identified pairs; clocks that are not determined get constants which together fit into the target condition. Where everything is determined the result lies in the target condition. Every identification that was added has its transition and there are no others. Transitions between neighbouring rows change no clock but the new one, which starts at zero. The composition of two assignments is the composition of the functions. Applying an identification to a word of the source yields a word of the target which is related to it.",
  ["inputs"], "All pairs of simple source (also without upper bounds) and simple target conditions of bounded size, all satisfiable renamings between them, all pairs of assignments.",
  "The tests construct a handful of transitions; the copied clocks only differ from wrong ones for particular combinations of equal, constant and undetermined clocks.",
  ["include/renaming_relation.hh", "include/external_transition_maker.hh", "include/internal_transition_maker.hh", "include/single_morphism.hh", "include/juxtaposed_zone.hh", "include/timed_automaton.hh"],
  [("closure of renamings and assignments", "include/renaming_relation.hh"), ("transitions from morphisms", "include/external_transition_maker.hh"), ("composition of assignments", "include/timed_automaton.hh")],
  ["guards, targets and assignments of the transitions", "renamings, predicates on them and mapped words"])

p("C27", "Overlapping transitions are resolved without losing behaviour",
  "After the overlapping transitions of a location have been merged, no two transitions on one letter are enabled together; everything that was enabled before is enabled afterwards, each remaining guard is the smallest box around the guards it replaces, and its target and assignment are those of one of them (the one that leaves every clock exact, where just one of two does). When the set of exact clocks is given, a transition whose guard is exact on all of them is kept as it is in preference to one whose guard is not. Dropping transitions with narrower guards only drops those covered by another one with the same target. The tests for determinism and for the need of splitting say whether there are transitions that are enabled together.",
  ["inputs"], "All locations with several transitions on a letter, all guards that are boxes, all assignments and all orders of the transitions.",
  "The tests merge a few pairs; order dependence only shows with three or more transitions.",
  ["src/timed_automaton.cc", "include/timed_automaton.hh", "include/constraint.hh"],
  [("merging of nondeterministic branching", "src/timed_automaton.cc:mergeNondeterministicBranching"), ("weaker guards", "src/timed_automaton.cc:removeTransitionsWithWeakerGuards"), ("determinism", "src/timed_automaton.cc:deterministic")],
  ["transitions of a location before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
