// Relaxation of the guards of small acyclic automata by the handler of imprecise clocks (Handler.tla).
//   cascade OUT JOBS CPU FROM TO
#include "gen.hh"
#include "imprecise_clock_handler.hh"
#include "neighbor_conditions.hh"

using namespace vt;
using learnta::Constraint;
using learnta::NeighborConditions;
using Fwd = learnta::ForwardRegionalElementaryLanguage;
using O = Constraint::Order;
using Guard = std::vector<Constraint>;
using Resets = TATransition::Resets;

namespace {
  std::string id(const std::string &s) { return s; }
  std::string num(long x) { return std::to_string(x); }
  std::string guard(const Guard &g) {
    return arr(g, [](const Constraint &c) { return "[" + num(c.x + 1) + "," + opName(c.odr) + "," + num(c.c) + "]"; });
  }
  std::string resets(const Resets &u) {
    return arr(u, [](const auto &e) {
      return "[" + num(e.first + 1) + "," + (e.second.index() == 0 ? "0," + num(scaled(std::get<double>(e.second), 64))
                                                                    : "1," + num(std::get<ClockVariables>(e.second) + 1)) + "]";
    });
  }
  std::string vals(const std::vector<double> &v) { return arr(v, [](double x) { return num(scaled(x, 64)); }); }

  struct Gen {
    Rng r;
    std::vector<std::shared_ptr<TAState>> states;
    std::vector<int> size;
    std::vector<Fwd> at; // a region in which the location is reached

    explicit Gen(int seed) : r(seed * 613 + 5) {}

    static std::vector<double> value(const Fwd &f) { return NeighborConditions{f, std::unordered_set<ClockVariables>{0}}.toOriginalValuation(); }
    static Fwd regionOf(const std::vector<double> &v) {
      std::vector<double> d(v.size());
      for (std::size_t i = 0; i < v.size(); ++i) d[i] = v[i] - (i + 1 < v.size() ? v[i + 1] : 0);
      return Fwd::fromTimedWord(TimedWord{std::string(v.size() - 1, 'a'), d});
    }

    int location(const Fwd &f, int n, int depth) {
      const int me = (int) states.size();
      states.push_back(std::make_shared<TAState>(r.chance(1, 2)));
      size.push_back(n);
      at.push_back(f);
      if (depth == 0) {
        // nothing but a transition which is always possible
        states[me]->next['a'].emplace_back(states[me].get(), Resets{}, Guard{{static_cast<ClockVariables>(n - 1), O::ge, 0}});
        return me;
      }
      std::string letters = r.chance(1, 2) ? "ab" : "a";
      for (char a: letters) {
        Fwd here = f;
        const int pieces = r(1, 3);
        for (int k = 0; k < pieces; ++k) {
          std::vector<Guard> gs;
          std::vector<Fwd> seen;
          const int len = r.chance(2, 3) ? 1 : r(1, 3);
          for (int m = 0; m < len; ++m) {
            gs.push_back(here.getTimedCondition().toGuard());
            seen.push_back(here);
            here.successorAssign();
          }
          Guard g = learnta::unionHull(gs);
          const bool last = k == pieces - 1;
          if (last) {
            g.erase(std::remove_if(g.begin(), g.end(), [](const Constraint &c) { return c.isUpperBound(); }), g.end());
            // the location reads all its clocks
            g.push_back({static_cast<ClockVariables>(n - 1), O::ge, 0});
          }
          edge(me, a, g, seen.at(r(0, (int) seen.size() - 1)), depth);
        }
      }
      return me;
    }

    void edge(int me, char a, const Guard &g, const Fwd &from, int depth) {
      const int n = size[me];
      const auto v = value(from);
      Resets u;
      Fwd next = from;
      int m = n;
      if (n < 4 && r.chance(1, 2)) {
        u = {{static_cast<ClockVariables>(n), 0.0}};
        next = from.successor('a');
        m = n + 1;
      } else {
        m = n == 1 ? 1 : r(1, std::min(4, n + 1));
        std::vector<double> w(m);
        bool ok = false;
        for (int attempt = 0; attempt < 40 && !ok; ++attempt) {
          u.clear();
          for (int i = 0; i < m; ++i) {
            const int k = r(0, 3);
            if (k <= 1 && i < n) w[i] = v[i];
            else if (k <= 2) {
              const int c = r(0, n - 1);
              u.emplace_back(static_cast<ClockVariables>(i), static_cast<ClockVariables>(c));
              w[i] = v[c];
            } else {
              w[i] = r(0, 2);
              u.emplace_back(static_cast<ClockVariables>(i), w[i]);
            }
          }
          ok = std::is_sorted(w.rbegin(), w.rend());
          // that would be the transition to the next row
          if (u.size() == 1 && u[0].first == n && u[0].second.index() == 0 && std::get<double>(u[0].second) == 0) ok = false;
        }
        if (!ok) {
          m = n;
          u.clear();
          w = v;
        }
        next = regionOf(w);
      }
      // sometimes the location of another transition with as many clocks
      int to = -1;
      if (r.chance(1, 6))
        for (int i = me + 1; i < (int) states.size(); ++i) if (size[i] == m && r.chance(1, 2)) to = i;
      if (to < 0) to = location(next, m, (int) states.size() > 9 ? 0 : depth - 1);
      states[me]->next[a].emplace_back(states[to].get(), u, g);
    }

    std::string list() {
      std::vector<std::string> l;
      for (const auto &s: states) {
        std::map<Alphabet, const std::vector<TATransition> *> sorted;
        for (const auto &[a, ts]: s->next) sorted[a] = &ts;
        std::vector<std::string> q;
        for (const auto &[a, ts]: sorted)
          for (const auto &t: *ts) {
            int k = 0;
            while (k < (int) states.size() && states[k].get() != t.target) ++k;
            q.push_back("{\"a\":" + act(a) + ",\"t\":" + num(k + 1) + ",\"g\":" + guard(t.guard) + ",\"u\":" + resets(t.resetVars) + "}");
          }
        l.push_back(arr(q, id));
      }
      return arr(l, id);
    }

    void run(std::ostream &o, int seed) {
      const int n = r.chance(1, 8) ? 1 : r(2, 3);
      std::vector<double> v(n);
      for (auto &x: v) x = r.chance(1, 8) ? r(0, 1) : r(1, 15) / 8.0;
      std::sort(v.rbegin(), v.rend());
      location(regionOf(v), n, r(1, 3));
      const auto before = list();
      learnta::ImpreciseClockHandler h;
      std::vector<std::string> pushes;
      for (int k = r(1, 2); k > 0; --k) {
        const int s = k == 1 ? 0 : r(0, (int) states.size() - 1);
        learnta::RenamingRelation ren;
        for (int i = 0; i < size[s]; ++i) if (r.chance(1, size[s])) ren.emplace_back(i, i);
        if (ren.empty() && r.chance(3, 4)) ren.emplace_back(0, r(0, size[s] - 1));
        h.push(states[s].get(), ren, at[s]);
        std::set<int> right;
        for (const auto &e: ren) right.insert((int) e.second + 1);
        pushes.push_back("{\"l\":" + num(s + 1) + ",\"v\":" + vals(value(at[s])) + ",\"right\":" + arr(right, num) + "}");
      }
      h.run();
      o << "{\"id\":\"h" << seed << "\",\"size\":" << arr(size, num) << ",\"push\":" << arr(pushes, id) << ",\"before\":" << before
        << ",\"after\":" << list() << "}\n";
    }
  };
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<Case> cases;
  for (int s = from; s < to; ++s) cases.push_back({"h" + num(s), cpu, [=](std::ostream &o) { Gen g(s); g.run(o, s); }});
  runCases(cases, argv[1], jobs);
  return 0;
}
