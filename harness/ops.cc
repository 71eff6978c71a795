// Operations on timed automata: complement, product, simplifications, zone graph, equivalence oracle.
//   ops OUT JOBS CPU KIND FROM TO
#include "gen.hh"
#include "intersection.hh"
#include "ta2za.hh"
#include "timed_automata_equivalence_oracle.hh"

using namespace learnta;

namespace {
  struct Family { vt::GenParam p; std::string name; };

  Family family(int s, vt::Rng &r) {
    vt::GenParam p;
    p.states = r(2, 4);
    p.accept = r(20, 70);
    p.complete = r(50, 100);
    p.letters = r.chance(1, 3) ? "a" : "ab";
    switch (s % 5) {
      case 0: p.maxC = 3; break;
      case 1: p.clocks = 2; p.maxC = 2; p.states = r(2, 3); break;
      case 2: p.clocks = 2; p.maxC = 1; break;
      case 3: p.clocks = 2; p.maxC = 2; p.copies = true; p.constants = true; p.states = r(2, 3); p.shuffle = 25; break;
      default: p.clocks = r(1, 2); p.maxC = 2; p.halves = true; p.copies = true; p.states = 2; p.shuffle = 25; break;
    }
    return {p, "f" + std::to_string(s % 5)};
  }

  // Three clocks, or large constants with three letters, or long ways through many states
  Family wide(int s, vt::Rng &r) {
    vt::GenParam p;
    p.accept = r(20, 70);
    p.complete = r(50, 100);
    if (s % 3 == 2) {
      p.clocks = r(1, 2);
      p.maxC = p.clocks == 1 ? 2 : 1;
      p.states = p.clocks == 1 ? r(8, 14) : r(6, 9);
      p.letters = r.chance(1, 2) ? "a" : "ab";
      p.chain = r(60, 95);
      p.accept = r(5, 30);
      p.complete = r(70, 100);
    } else if (s % 3 == 1) {
      p.clocks = 3;
      p.maxC = 1;
      p.states = r(2, 3);
      p.letters = r.chance(1, 2) ? "a" : "ab";
      p.copies = r.chance(1, 2);
      p.constants = r.chance(1, 2);
    } else {
      p.maxC = r(9, 13);
      p.states = r(2, 4);
      p.letters = "abc";
    }
    return {p, "w" + std::to_string(s % 3)};
  }

  using Run = std::function<void(vt::Rng &, const vt::GenParam &, vt::Rec &)>;

  std::vector<Alphabet> alph(const std::string &s) { return {s.begin(), s.end()}; }

  void comp(vt::Rng &r, const vt::GenParam &p, vt::Rec &o) {
    auto t = vt::genDTA(r, p);
    if (r.chance(1, 2)) t = vt::disguise(r, t, p.letters, p.maxC, false);
    const auto before = vt::taJson(t);
    const auto c = t.complement(alph(p.letters));
    const auto after = vt::taJson(t);
    o.product("complement", "neg", {before, vt::taJson(c)}, {2}, {2});
    auto d = vt::clone(t);
    d.makeComplete(alph(p.letters));
    o.product("complete", "eq", {before, vt::taJson(d), after}, {2}, {2});
    const auto cc = c.complement(alph(p.letters));
    o.product("twice", "eq", {before, vt::taJson(cc)}, {2}, {2});
  }

  // A deterministic automaton with urgent unobservable transitions which never fire without time passing:
  // they need x >= k for a clock x which is 0 whenever their source is entered and a constant k > 0
  // (tame: as in hypotheses, letters are only possible before, and acceptance does not change)
  TimedAutomaton urgent(vt::Rng &r, const vt::GenParam &p, bool tame = false) {
    auto t = vt::genDTA(r, p);
    const int n = (int) t.clockSize();
    std::map<TAState *, std::vector<ClockVariables>> zero;
    std::map<TAState *, std::vector<TATransition>> eps;
    for (std::size_t i = 0; i < t.states.size(); ++i) {
      if (i > 0 && r.chance(1, 2)) continue;
      auto *s = t.states.at(i).get();
      const auto x = static_cast<ClockVariables>(r(0, n - 1));
      const int k = r(1, p.maxC);
      std::vector<Constraint> g{{x, Constraint::Order::ge, k}};
      if (r.chance(1, 3)) g.push_back({x, Constraint::Order::le, k});
      std::vector<std::vector<Constraint>> gs{g};
      if (!tame && n > 1 && r.chance(1, 2)) { // depends on another clock too: one or two cases
        const auto y = static_cast<ClockVariables>(1 - x);
        const int d = r(1, p.maxC);
        gs.front().push_back({y, Constraint::Order::le, d});
        if (r.chance(1, 2)) { g.push_back({y, Constraint::Order::gt, d}); gs.push_back(g); }
      }
      for (const auto &h: gs) {
        TATransition::Resets u;
        if (r.chance(1, 2)) u.emplace_back(static_cast<ClockVariables>(r(0, n - 1)), 0.0);
        auto *target = vt::anyState(r, t);
        while (tame && target->isMatch != s->isMatch) target = vt::anyState(r, t);
        eps[s].emplace_back(target, u, h);
      }
      if (tame) for (auto &[a, v]: s->next) for (auto &e: v) e.guard.push_back({x, Constraint::Order::lt, k});
      zero[s] = {x};
      // often no letter, or only one, is possible before the unobservable transition
      if (r.chance(1, 3)) s->next.erase(p.letters[r(0, (int) p.letters.size() - 1)]);
      if (r.chance(1, 4)) s->next.clear();
    }
    for (auto &[s, e]: eps) s->next[UNOBSERVABLE] = e;
    for (auto *e: vt::allTransitions(t)) {
      const auto it = zero.find(e->target);
      if (it == zero.end()) continue;
      for (const auto x: it->second) {
        e->resetVars.erase(std::remove_if(e->resetVars.begin(), e->resetVars.end(), [&](const auto &z) { return z.first == x; }), e->resetVars.end());
        e->resetVars.emplace_back(x, 0.0);
      }
    }
    return t;
  }

  void ecomp(vt::Rng &r, const vt::GenParam &q, vt::Rec &o) {
    auto p = q;
    p.copies = p.halves = false;
    p.shuffle = 0;
    const auto t = urgent(r, p);
    const auto before = vt::taJson(t);
    const auto c = t.complement(alph(p.letters));
    o.product("complement", "neg", {before, vt::taJson(c)}, {2});
    auto d = vt::clone(t);
    d.makeComplete(alph(p.letters));
    o.product("complete", "eq", {before, vt::taJson(d)}, {2});
    const auto cc = c.complement(alph(p.letters));
    o.product("twice", "eq", {before, vt::taJson(cc)}, {2});
  }

  void inter(vt::Rng &r, const vt::GenParam &p, vt::Rec &o) {
    auto q = p;
    if (p.clocks > 2) q.clocks = 1;
    else if (r.chance(1, 2)) q.clocks = 3 - p.clocks;
    if (p.maxC > 5) q.maxC = q.clocks > 1 ? 2 : p.maxC - 2;
    if (r.chance(1, 3)) q.letters = p.letters == "a" ? "ab" : "a";
    o.sigma = p.letters == "abc" ? "abc" : "ab";
    auto a = vt::genDTA(r, p), b = r.chance(1, 3) ? vt::mutate(r, a, p.maxC) : vt::genDTA(r, q);
    const auto ja = vt::taJson(a), jb = vt::taJson(b);
    TimedAutomaton i;
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
    intersectionTA(a, b, i, m);
    o.product("product", "and", {ja, jb, vt::taJson(i)}, {3});
    o.product("left", "eq", {ja, vt::taJson(a)});
    o.product("right", "eq", {jb, vt::taJson(b)});
    TimedAutomaton self;
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m2;
    intersectionTA(a, a, self, m2);
    o.product("self", "eq", {ja, vt::taJson(self)}, {2});
  }

  // One side takes unobservable transitions
  void einter(vt::Rng &r, const vt::GenParam &q, vt::Rec &o) {
    auto p = q;
    p.copies = p.halves = false;
    p.shuffle = 0;
    if (p.clocks > 1) p.maxC = std::min(p.maxC, 2);
    const auto t = urgent(r, p);
    auto q2 = p;
    q2.clocks = r.chance(1, 2) ? 1 : p.clocks;
    if (r.chance(1, 3)) q2.letters = p.letters == "a" ? "ab" : "a";
    o.sigma = "ab";
    const auto u = vt::genDTA(r, q2);
    const auto jt = vt::taJson(t), ju = vt::taJson(u);
    TimedAutomaton i;
    boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
    const bool first = r.chance(1, 2);
    if (first) intersectionTA(t, u, i, m);
    else intersectionTA(u, t, i, m);
    o.product("product", "and", {first ? jt : ju, first ? ju : jt, vt::taJson(i)}, {3});
  }

  // A deterministic input for the simplifications
  TimedAutomaton input(vt::Rng &r, const vt::GenParam &p, bool overlapping) {
    auto t = vt::genDTA(r, p);
    switch (r(0, 4)) {
      case 0: case 1: return vt::disguise(r, t, p.letters, p.maxC, overlapping);
      case 2: return t.complement(alph(p.letters));
      case 3: {
        auto q = p;
        q.states = 2;
        q.clocks = 1;
        const auto u = vt::genDTA(r, q).complement(alph(p.letters));
        TimedAutomaton i;
        boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m;
        intersectionTA(t, u, i, m);
        return vt::clone(i);
      }
      default: return t;
    }
  }

  void simp(vt::Rng &r, const vt::GenParam &p, vt::Rec &o) {
    const auto t = input(r, p, true);
    const auto j = vt::taJson(t);
    auto apply = [&](const std::string &tag, const std::function<void(TimedAutomaton &)> &f) {
      auto c = vt::clone(t);
      f(c);
      o.product(tag, "eq", {j, vt::taJson(c)}, {2});
    };
    apply("simplify", [](auto &c) { c.simplify(); });
    apply("strong", [](auto &c) { c.simplifyStrong(); });
    apply("zones", [](auto &c) { c.simplifyWithZones(); });
    apply("strong+zones", [](auto &c) { c.simplifyStrong(); c.simplifyWithZones(); });
    apply("zones+strong", [](auto &c) { c.simplifyWithZones(); c.simplifyStrong(); });
    apply("unusedClocks", [](auto &c) { c.removeUnusedClockVariables(); });
    if (t.clockSize() <= 1 && vt::detSyntactic(t)) apply("merge", [](auto &c) { c.mergeAdjacentTransitions(); });
  }

  void esimp(vt::Rng &r, const vt::GenParam &q, vt::Rec &o) {
    auto p = q;
    p.copies = p.halves = false;
    p.shuffle = 0;
    auto t = urgent(r, p, true);
    if (r.chance(1, 2)) t.makeComplete(alph(p.letters));
    const auto j = vt::taJson(t);
    auto apply = [&](const std::string &tag, const std::function<void(TimedAutomaton &)> &f) {
      auto c = vt::clone(t);
      f(c);
      o.product(tag, "eq", {j, vt::taJson(c)}, {2});
    };
    apply("simplify", [](auto &c) { c.simplify(); });
    apply("strong", [](auto &c) { c.simplifyStrong(); });
    apply("zones", [](auto &c) { c.simplifyWithZones(); });
    apply("strong+zones", [](auto &c) { c.simplifyStrong(); c.simplifyWithZones(); });
    apply("unusedClocks", [](auto &c) { c.removeUnusedClockVariables(); });
  }

  void zone(vt::Rng &r, const vt::GenParam &p, vt::Rec &o) {
    auto t = input(r, p, false);
    if (r.chance(1, 2)) { // few accepting states, far away
      for (auto &s: t.states) s->isMatch = false;
      t.states.back()->isMatch = true;
    }
    const auto j = vt::taJson(t);
    for (int mode = 0; mode < 3; ++mode) {
      ZoneAutomaton z;
      ta2za(t, z, mode == 0);
      if (mode == 2) z.removeDeadStates();
      const auto w = mode == 0 ? z.sampleWithMemo() : z.sample();
      const std::string tag = mode == 0 ? "quick" : mode == 1 ? "full" : "live";
      if (w) o.word(tag, "acc", {j}, *w);
      else o.product(tag, "none", {j});
    }
    o.product("unchanged", "eq", {j, vt::taJson(t)});
  }

  void eqo(vt::Rng &r, const vt::GenParam &p, vt::Rec &o) {
    const auto t = vt::genDTA(r, p);
    TimedAutomaton h;
    switch (r(0, 5)) {
      case 0: h = vt::disguise(r, t, p.letters, p.maxC, false); break;
      case 1: case 2: h = vt::mutate(r, t, p.maxC); break;
      case 3: h = vt::disguise(r, vt::mutate(r, t, p.maxC), p.letters, p.maxC, false); break;
      case 4: { auto c = t.complement(alph(p.letters)); h = c.complement(alph(p.letters)); if (r.chance(1, 2)) h.simplifyStrong(); break; }
      default: h = vt::mutate(r, vt::mutate(r, t, p.maxC), p.maxC); break;
    }
    if (h.states.empty() || h.initialStates.empty()) h = vt::clone(t);
    auto c = t.complement(alph(p.letters));
    c.simplifyStrong();
    c.simplifyWithZones();
    ComplementTimedAutomataEquivalenceOracle oracle{t, c, alph(p.letters)};
    const auto jt = vt::taJson(t), jh = vt::taJson(h);
    const auto w = oracle.findCounterExample(h);
    if (w) o.word("cex", "neq", {jt, jh}, *w);
    else o.product("nocex", "eq", {jt, jh});
    o.product("unchanged", "eq", {jt, vt::taJson(t)});
  }
}

int main(int argc, char **argv) {
  vt::quiet();
  const std::map<std::string, Run> kinds{{"comp", comp}, {"ecomp", ecomp}, {"einter", einter}, {"esimp", esimp}, {"inter", inter}, {"simp", simp}, {"zone", zone}, {"eqo", eqo}};
  // "wide/K": kind K on wide families
  const std::string name = argv[4];
  const bool isWide = name.rfind("wide/", 0) == 0;
  const std::string kind = isWide ? name.substr(5) : name;
  const auto f = kinds.at(kind);
  std::vector<vt::Case> cases;
  for (int s = std::atoi(argv[5]); s < std::atoi(argv[6]); ++s) {
    const std::string id = (isWide ? "w" + kind : kind) + "-" + std::to_string(s);
    cases.push_back({id, std::atoi(argv[3]), [=](std::ostream &o) {
      vt::Rng r(s * 104729 + kind.size() * 31 + kind[0]);
      const auto fam = isWide ? wide(s, r) : family(s, r);
      vt::Rec rec;
      rec.id = id;
      rec.sigma = fam.p.letters;
      f(r, fam.p, rec);
      rec.write(o);
    }});
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}
