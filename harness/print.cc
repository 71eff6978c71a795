// Prints automata with the library's operator<<, next to their projection.
#include "gen.hh"
using namespace learnta;

// print OUT JOBS CPU from to
int main(int argc, char **argv) {
  vt::quiet();
  std::vector<vt::Case> cases;
  for (int s = std::atoi(argv[4]); s < std::atoi(argv[5]); ++s) {
    const std::string id = "print-" + std::to_string(s);
    cases.push_back({id, std::atoi(argv[3]), [=](std::ostream &o) {
      vt::Rng r(s * 6151 + 5);
      vt::GenParam p;
      p.states = r.chance(1, 10) ? r(10, 14) : r(1, 4);
      p.clocks = r(1, 3);
      p.maxC = r(1, 4);
      p.letters = r.pick(std::vector<std::string>{"ab", "a", "xyz", "pq", "01", "[,"});
      p.copies = r.chance(1, 2);
      p.constants = r.chance(1, 2);
      p.halves = r.chance(1, 2);
      auto t = vt::genDTA(r, p);
      if (r.chance(1, 3)) t = vt::disguise(r, t, p.letters, p.maxC, false);
      if (r.chance(1, 3)) { // large constants and fine fractions
        for (auto *e: vt::allTransitions(t))
          for (auto &[x, v]: e->resetVars)
            if (v.index() == 0 && r.chance(1, 2)) v = r(0, 8) * (r.chance(1, 2) ? 1.0 : 0.125);
      }
      if (r.chance(1, 8)) { // large ones in guards and assignments
        const int f = r.pick(std::vector<int>{10, 100, 1000, 10000});
        for (auto *e: vt::allTransitions(t)) {
          for (auto &g: e->guard) g.c *= f;
          for (auto &[x, v]: e->resetVars) if (v.index() == 0) v = r(0, p.maxC * f * 8) * 0.125;
        }
        for (auto &c: t.maxConstraints) c *= f;
      }
      if (r.chance(1, 4)) // an unobservable transition
        t.states.front()->next[UNOBSERVABLE].emplace_back(vt::anyState(r, t), TATransition::Resets{{0, 0.0}}, std::vector<Constraint>{{0, Constraint::Order::ge, p.maxC}, {0, Constraint::Order::le, p.maxC}});
      if (r.chance(1, 20)) t.initialStates.clear();
      std::stringstream ss;
      ss << t;
      o << "{\"id\":" << vt::quote(id) << ",\"sigma\":" << vt::arr(p.letters, [](char c) { return vt::act(c); }) << ",\"aut\":" << vt::taJson(t)
        << ",\"text\":" << vt::quote(ss.str()) << "}\n";
    }});
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}
