// Random guards on the transitions of one or more states, given to the library's determinism check.
#include "gen.hh"
using namespace learnta;

namespace {
  std::vector<Constraint> guard(vt::Rng &r, int n, int maxC) {
    std::vector<Constraint> g;
    const int k = r(0, 3);
    for (int i = 0; i < k; ++i) {
      const auto x = static_cast<ClockVariables>(r(0, n - 1));
      const auto odr = r.pick(std::vector<Constraint::Order>{Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge, Constraint::Order::gt});
      g.push_back({x, odr, r(0, maxC)});
    }
    return g;
  }

  // Boxes which meet in a face, a corner, or not at all
  std::vector<Constraint> box(vt::Rng &r, int n, int maxC) {
    std::vector<Constraint> g;
    for (int x = 0; x < n; ++x) {
      if (r.chance(1, 4)) continue;
      const int lo = r(0, maxC), hi = r(lo, maxC);
      const auto v = static_cast<ClockVariables>(x);
      if (lo == hi) {
        g.push_back({v, Constraint::Order::ge, lo});
        g.push_back({v, Constraint::Order::le, hi});
      } else {
        if (!r.chance(1, 5)) g.push_back({v, r.chance(1, 2) ? Constraint::Order::ge : Constraint::Order::gt, lo});
        if (!r.chance(1, 5)) g.push_back({v, r.chance(1, 2) ? Constraint::Order::le : Constraint::Order::lt, hi});
      }
    }
    if (r.chance(1, 2)) std::reverse(g.begin(), g.end());
    return g;
  }

  std::string item(const TimedAutomaton &t) {
    return "{\"aut\":" + vt::taJson(t) + ",\"must\":0,\"flag\":" + (t.deterministic() ? "1" : "0") + "}";
  }

  // Makes the branching of one state deterministic
  std::string merged(vt::Rng &r, bool precise) {
    const int n = r(1, precise ? 2 : 3), maxC = r(1, 3), states = r(1, 3);
    std::vector<int> acc(states, r(0, 1));
    vt::TAB b(acc, n, maxC);
    const int m = r(1, 4);
    for (int i = 0; i < m; ++i) {
      const int k = r(0, n);
      TATransition::Resets resets;
      for (int x = 0; x < k; ++x) if (r.chance(1, 2)) resets.emplace_back(x, r.chance(1, 2) ? 0.0 : (double) r(0, 2 * maxC));
      b.t(0, r.chance(3, 4) ? 'a' : 'b', r(0, states - 1), box(r, n, maxC), resets);
    }
    const auto state = [&](const TimedAutomaton &t) {
      const auto j = vt::taJson(t);
      return j; // the whole automaton; only the first state has transitions
    };
    const auto before = state(b.ta);
    std::unordered_set<ClockVariables> clocks;
    for (int x = 0; x < n; ++x) if (r.chance(1, 2)) clocks.insert(x);
    if (precise) b.ta.states.front()->mergeNondeterministicBranching(clocks);
    else b.ta.states.front()->mergeNondeterministicBranching();
    const auto after = state(b.ta);
    return "{\"precise\":" + std::to_string(precise) + ",\"n\":" + std::to_string(n) + ",\"max\":" + std::to_string(maxC) +
           ",\"before\":" + before + ",\"after\":" + after + "}";
  }
}

// det OUT JOBS CPU from to [merge]
int main(int argc, char **argv) {
  vt::quiet();
  std::vector<vt::Case> cases;
  for (int s = std::atoi(argv[4]); s < std::atoi(argv[5]); ++s) {
    const std::string id = "det-" + std::to_string(s);
    cases.push_back({id, std::atoi(argv[3]), [=](std::ostream &o) {
      vt::Rng r(s * 7919 + 3);
      std::vector<std::string> items;
      if (argc > 6) {
        for (int k = 0; k < 24; ++k) items.push_back(merged(r, k % 2 == 1));
      } else for (int k = 0; k < 24; ++k) {
        const int n = r(1, 3), maxC = r(1, 4), states = r(1, 3);
        std::vector<int> acc(states, 0);
        vt::TAB b(acc, n, maxC);
        const int kind = r(0, 4);
        if (kind == 0) { // deterministic by construction, and a change of one transition
          vt::GenParam p;
          p.states = states; p.clocks = n; p.maxC = maxC;
          auto t = vt::genDTA(r, p);
          items.push_back(item(t));
          auto ts = vt::allTransitions(t);
          if (!ts.empty()) {
            auto &g = r.pick(ts)->guard;
            if (!g.empty()) {
              auto &c = g[r(0, (int) g.size() - 1)];
              if (r.chance(1, 2)) c.c = std::max(0, c.c + (r.chance(1, 2) ? 1 : -1));
              else c.odr = static_cast<Constraint::Order>(r(0, 3));
              items.push_back(item(t));
            }
          }
          continue;
        }
        for (int st = 0; st < states; ++st)
          for (char a: std::string("ab")) {
            const int m = r.chance(1, 2) ? 1 : r(0, 3);
            for (int i = 0; i < m; ++i) b.t(st, a, r(0, states - 1), kind < 3 ? box(r, n, maxC) : guard(r, n, maxC));
          }
        if (r.chance(1, 6)) b.t(0, UNOBSERVABLE, 0, box(r, n, maxC)).t(0, UNOBSERVABLE, 0, box(r, n, maxC));
        items.push_back(item(b.ta));
      }
      o << "{\"id\":" << vt::quote(id) << ",\"history\":" << vt::arr(items, [](const auto &x) { return x; }) << "}\n";
    }});
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}
