// Resolution of transitions of one location which are enabled together (Overlaps.tla).
//   merge OUT JOBS CPU FROM TO
#include "gen.hh"

using namespace vt;
using learnta::Constraint;
using O = Constraint::Order;
using Guard = std::vector<Constraint>;
using Resets = TATransition::Resets;

namespace {
  std::string id(const std::string &s) { return s; }
  std::string num(long x) { return std::to_string(x); }
  std::string guard(const Guard &g) {
    return arr(g, [](const Constraint &c) { return "[" + num(c.x + 1) + "," + opName(c.odr) + "," + num(c.c) + "]"; });
  }
  std::string resets(Resets u) {
    std::sort(u.begin(), u.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
    return arr(u, [](const auto &e) {
      return "[" + num(e.first + 1) + "," + (e.second.index() == 0 ? "0," + num(scaled(std::get<double>(e.second), 64))
                                                                    : "1," + num(std::get<ClockVariables>(e.second) + 1)) + "]";
    });
  }

  struct Gen {
    Rng r;
    int n;
    std::vector<std::shared_ptr<TAState>> targets;
    std::vector<int> size;

    explicit Gen(int seed) : r(seed * 431 + 11), n(r(1, 3)) {
      const bool match = r.chance(1, 2);
      for (int k = r(1, 3); k > 0; --k) {
        targets.push_back(std::make_shared<TAState>(match));
        size.push_back(r(1, n + 1));
        targets.back()->next['a'].emplace_back(targets.back().get(), Resets{}, Guard{{static_cast<ClockVariables>(size.back() - 1), O::ge, 0}});
      }
    }

    // an interval of half-integer points 2k, 2k+1; hi < 0: no upper bound
    void interval(Guard &g, int x, int lo, int hi) {
      const auto c = static_cast<ClockVariables>(x);
      if (lo > 0) g.push_back({c, lo % 2 ? O::gt : O::ge, lo / 2});
      if (hi >= 0) g.push_back({c, hi % 2 ? O::lt : O::le, (hi + 1) / 2});
    }

    Resets assignment(int target) {
      Resets u;
      for (int i = 0; i < size[target]; ++i) {
        if (i < n && r.chance(2, 5)) continue;
        const auto x = static_cast<ClockVariables>(i);
        switch (r(0, 3)) {
          case 0: u.emplace_back(x, static_cast<ClockVariables>(r(0, n - 1))); break;
          case 1: u.emplace_back(x, r(0, 2) + 0.5); break;
          default: u.emplace_back(x, static_cast<double>(r(0, 2)));
        }
      }
      return u;
    }

    std::vector<TATransition> transitions(int count) {
      std::vector<TATransition> ts;
      std::vector<std::vector<std::pair<int, int>>> boxes;
      for (int k = 0; k < count; ++k) {
        std::vector<std::pair<int, int>> b(n);
        if (k > 0 && r.chance(1, 2)) { // around or inside another one
          b = r.pick(boxes);
          for (int i = 0; i < n; ++i) {
            if (r.chance(1, 2)) continue;
            const int a = b[i].first, z = b[i].second;
            if (r.chance(1, 2)) b[i] = {std::max(0, a - r(0, 2)), z < 0 ? z : z + r(0, 2)};
            else { const int p = a + (z < 0 ? r(0, 2) : r(0, z - a)); b[i] = {p, p}; }
          }
        } else {
          for (int i = 0; i < n; ++i) {
            const int a = r(0, 6);
            b[i] = {a, r.chance(1, 4) ? -1 : r.chance(1, 2) ? a : a + r(0, 3)};
          }
        }
        boxes.push_back(b);
        Guard g;
        for (int i = 0; i < n; ++i) interval(g, i, b[i].first, b[i].second);
        std::shuffle(g.begin(), g.end(), r.g);
        const int t = r(0, (int) targets.size() - 1);
        ts.emplace_back(targets[t].get(), k > 0 && ts.back().target == targets[t].get() && r.chance(1, 2) ? ts.back().resetVars : assignment(t), g);
      }
      return ts;
    }

    std::string list(const std::vector<TATransition> &ts) {
      return arr(ts, [&](const TATransition &t) {
        int k = 0;
        while (k < (int) targets.size() && targets[k].get() != t.target) ++k;
        return "{\"t\":" + num(k + 1) + ",\"g\":" + guard(t.guard) + ",\"u\":" + resets(t.resetVars) + "}";
      });
    }

    void run(std::ostream &o, int seed) {
      TAState s(r.chance(1, 2));
      std::map<char, std::vector<TATransition>> before;
      for (char a: std::string(r.chance(1, 3) ? "ab" : "a")) before[a] = transitions(r.chance(1, 3) ? 2 : r(1, 5));
      for (const auto &[a, ts]: before) s.next[a] = ts;
      const bool det = s.deterministic(), split = s.needSplitting();
      const int op = r(0, 4);
      std::set<int> precise;
      if (op >= 3) {
        for (int i = 0; i < n; ++i) if (r.chance(2, 3)) precise.insert(i);
        s.mergeNondeterministicBranching(std::unordered_set<ClockVariables>(precise.begin(), precise.end()));
      } else if (op == 2) {
        s.removeTransitionsWithWeakerGuards();
      } else {
        s.mergeNondeterministicBranching();
      }
      const bool after = s.deterministic();
      std::vector<std::string> letters;
      for (const auto &[a, ts]: before) letters.push_back("{\"given\":" + list(ts) + ",\"left\":" + list(s.next.at(a)) + "}");
      o << "{\"id\":\"j" << seed << "\",\"op\":" << quote(op >= 3 ? "precise" : op == 2 ? "weaker" : "merge") << ",\"n\":" << n
        << ",\"size\":" << arr(size, num) << ",\"p\":" << arr(precise, [](int i) { return num(i + 1); }) << ",\"det\":" << (det ? 1 : 0)
        << ",\"after\":" << (after ? 1 : 0) << ",\"split\":" << (split ? 1 : 0) << ",\"letters\":" << arr(letters, id) << "}\n";
    }
  };
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<Case> cases;
  for (int s = from; s < to; ++s) cases.push_back({"j" + num(s), cpu, [=](std::ostream &o) { Gen g(s); g.run(o, s); }});
  runCases(cases, argv[1], jobs);
  return 0;
}
