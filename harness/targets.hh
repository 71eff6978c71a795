// Named target automata shared by the drivers (built through the public interface only).
#pragma once
#include "vt.hh"

namespace vt {
  inline Constraint lt(int x, int c) { return {static_cast<ClockVariables>(x), Constraint::Order::lt, c}; }
  inline Constraint le(int x, int c) { return {static_cast<ClockVariables>(x), Constraint::Order::le, c}; }
  inline Constraint ge(int x, int c) { return {static_cast<ClockVariables>(x), Constraint::Order::ge, c}; }
  inline Constraint gt(int x, int c) { return {static_cast<ClockVariables>(x), Constraint::Order::gt, c}; }
  inline TATransition::Resets rs(std::vector<int> xs) {
    TATransition::Resets r;
    for (int x: xs) r.emplace_back(static_cast<ClockVariables>(x), 0.0);
    return r;
  }

  struct Target {
    std::string name;
    std::string sigma;
    TimedAutomaton ta;
  };

  inline TimedAutomaton simpleDTA(int k) {
    return TAB({1, 0}, 1, k).t(0, 'a', 0, {lt(0, k)}).t(0, 'a', 1, {ge(0, k)}, rs({0}))
            .t(1, 'a', 0, {le(0, k)}).t(1, 'a', 1, {gt(0, k)}).ta;
  }

  // the "unbalanced" model of the shipped learners with scale k
  inline TimedAutomaton unbalanced(int k) {
    return TAB({1, 1, 1, 1, 1}, 2, k)
            .t(0, 'a', 1, {le(0, k)}, rs({0}))
            .t(1, 'a', 2, {le(0, k)})
            .t(2, 'a', 3, {le(0, k)})
            .t(3, 'a', 4, {le(0, k), le(1, k)}).ta;
  }

  inline std::vector<Target> namedTargets() {
    std::vector<Target> r;
    auto add = [&](const std::string &n, const std::string &s, TimedAutomaton t) { r.push_back({n, s, std::move(t)}); };
    add("simple1", "a", simpleDTA(1));
    add("simple2", "a", simpleDTA(2));
    add("empty", "ab", TAB({0}, 1, 1).t(0, 'a', 0, {}).ta);
    add("universal", "ab", TAB({1}, 1, 1).t(0, 'a', 0, {}).t(0, 'b', 0, {}).ta);
    add("onlyEmptyWord", "a", TAB({1}, 1, 1).ta);
    add("pointOnly", "a", TAB({0, 1}, 1, 2).t(0, 'a', 1, {ge(0, 2), le(0, 2)}).ta);
    add("openInterval", "a", TAB({0, 1}, 1, 2).t(0, 'a', 1, {gt(0, 1), lt(0, 2)}).ta);
    add("farPoint", "a", TAB({0, 1, 0}, 1, 4).t(0, 'a', 2, {lt(0, 1)}).t(2, 'a', 1, {ge(0, 4), le(0, 4)}).ta);
    add("resetLoop", "ab", TAB({1, 0}, 1, 1).t(0, 'a', 0, {le(0, 1)}, rs({0})).t(0, 'b', 1, {gt(0, 1)}).t(1, 'a', 0, {}, rs({0})).ta);
    add("noReset", "ab", TAB({0, 1}, 1, 2).t(0, 'a', 1, {le(0, 1)}).t(1, 'b', 0, {gt(0, 1), le(0, 2)}).t(1, 'a', 1, {lt(0, 2)}).ta);
    add("alternate", "ab", TAB({1, 0, 0}, 1, 2).t(0, 'a', 1, {lt(0, 2)}, rs({0})).t(1, 'b', 0, {gt(0, 1)}, rs({0}))
            .t(1, 'a', 2, {}).t(0, 'b', 2, {}).ta);
    add("light", "sp", TAB({0, 0, 1}, 1, 3).t(0, 's', 1, {}, rs({0})).t(1, 'p', 2, {ge(0, 1), le(0, 3)}, rs({0}))
            .t(1, 'p', 0, {lt(0, 1)}).t(2, 's', 0, {gt(0, 2)}).t(2, 's', 2, {le(0, 2)}).ta);
    add("strictVsLoose", "a", TAB({0, 1, 0}, 1, 1).t(0, 'a', 1, {lt(0, 1)}).t(0, 'a', 2, {ge(0, 1)}, rs({0})).t(2, 'a', 1, {le(0, 1)}).ta);
    add("twoClocksSum", "a", TAB({0, 0, 1}, 2, 1).t(0, 'a', 1, {le(0, 1)}, rs({1})).t(1, 'a', 2, {le(0, 1), le(1, 1)}).ta);
    add("twoClocksOrder", "ab", TAB({0, 0, 1}, 2, 1).t(0, 'a', 1, {lt(0, 1)}, rs({1})).t(1, 'b', 2, {ge(0, 1), lt(1, 1)}).ta);
    add("unbalanced1", "a", unbalanced(1));
    add("universalAfter", "a", TAB({0, 1}, 1, 1).t(0, 'a', 1, {gt(0, 1)}).t(1, 'a', 1, {}).ta);
    add("needsReset", "a", TAB({1, 0, 1}, 1, 2).t(0, 'a', 1, {le(0, 2)}, rs({0})).t(1, 'a', 2, {ge(0, 1)}).t(2, 'a', 1, {lt(0, 2)}, rs({0})).ta);
    return r;
  }

  // Numbered targets: c1s (1 clock), c1m, c1l, c2s (2 clocks), c2m, c2c (copies and constants);
  // c1w (constants up to 12), c1x (3 letters), c1n (more states), c3s (3 clocks)
  inline std::pair<TimedAutomaton, std::string> familyTarget(const std::string &fam, int s) {
    GenParam p;
    p.accept = 50;
    p.complete = 80;
    if (fam == "c1s") { p.states = 2 + s % 2; p.maxC = 1 + s % 2; }
    else if (fam == "c1m") { p.states = 3; p.maxC = 3; }
    else if (fam == "c1l") { p.states = 4; p.maxC = 3; p.letters = s % 2 ? "a" : "ab"; p.complete = 90; }
    else if (fam == "c2s") { p.clocks = 2; p.states = 2; p.maxC = 1; }
    else if (fam == "c2m") { p.clocks = 2; p.states = 2 + s % 2; p.maxC = 2; p.letters = "a"; }
    else if (fam == "c2c") { p.clocks = 2; p.states = 2; p.maxC = 1; p.letters = "a"; p.copies = p.constants = true; }
    else if (fam == "c1w") { p.states = 2 + (s % 4 == 3); p.maxC = 5 + s % 8; p.letters = "a"; }
    else if (fam == "c1x") { p.states = 2 + s % 2; p.maxC = 1; p.letters = "abc"; }
    else if (fam == "c1n") { p.states = 5 + s % 2; p.maxC = 1; p.complete = 90; p.letters = s % 3 ? "a" : "ab"; }
    else if (fam == "c3s") { p.clocks = 3; p.states = 2 + s % 2; p.maxC = 1; p.letters = s % 4 < 2 ? "ab" : "a"; p.copies = s % 8 > 3; p.complete = 95; }
    else throw std::runtime_error("unknown family " + fam);
    Rng r(s * 7919 + std::hash<std::string>{}(fam) % 1000);
    return {genDTA(r, p), p.letters};
  }
}
