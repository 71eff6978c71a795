// Walks over neighbourhoods of regional languages with imprecise clocks (Neighbours.tla).
#include "gen.hh"
#include "imprecise_clock_handler.hh"
#include "neighbor_conditions.hh"

using namespace vt;
using learnta::Bounds;
using learnta::Constraint;
using learnta::NeighborConditions;
using Fwd = learnta::ForwardRegionalElementaryLanguage;
using O = Constraint::Order;
using Guard = std::vector<Constraint>;
using Resets = TATransition::Resets;

namespace {
  std::string id(const std::string &s) { return s; }
  std::string num(long x) { return std::to_string(x); }
  std::string guard(const Guard &g) {
    return arr(g, [](const Constraint &c) { return "[" + num(c.x + 1) + "," + opName(c.odr) + "," + num(c.c) + "]"; });
  }
  std::string one(int i, int j, const Bounds &b) {
    return "[" + num(i) + "," + num(j) + "," + num(scaled(b.first, 1)) + "," + (b.second ? "1" : "0") + "]";
  }
  std::string bounds(const learnta::TimedCondition &c) {
    std::vector<std::string> r;
    const int n = (int) c.size();
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) {
        const int y = j == n - 1 ? 0 : j + 2;
        r.push_back(one(i + 1, y, c.getUpperBound(i, j)));
        r.push_back(one(y, i + 1, c.getLowerBound(i, j)));
      }
    return arr(r, id);
  }
  std::string resets(const Resets &u) {
    return arr(u, [](const auto &e) {
      return "[" + num(e.first + 1) + "," + (e.second.index() == 0 ? "0," + num(scaled(std::get<double>(e.second), 64))
                                                                    : "1," + num(std::get<ClockVariables>(e.second) + 1)) + "]";
    });
  }
  template<class C> std::string clocks(const C &c) {
    std::set<int> s(c.begin(), c.end());
    return arr(s, [](int x) { return num(x + 1); });
  }
  std::string vals(const std::vector<double> &v) { return arr(v, [](double x) { return num(scaled(x, 64)); }); }

  Guard someGuard(Rng &r, int n, const std::vector<double> &v) {
    Guard g;
    for (int i = 0; i < n; ++i) {
      if (!r.chance(1, 2)) continue;
      const int f = (int) std::floor(v[i]);
      // only simplified guards are compared exactly: at most one lower and one upper bound, and no x >= 0
      const int lower = f + r(-1, 1);
      if (r.chance(1, 2) && (lower > 0)) g.push_back({static_cast<ClockVariables>(i), r.chance(1, 2) ? O::gt : O::ge, lower});
      else if (r.chance(1, 2)) g.push_back({static_cast<ClockVariables>(i), O::gt, std::max(0, lower)});
      const bool bounded = !g.empty() && g.back().x == i;
      if (bounded && lower > f) continue; // the conjunction might be empty
      if (r.chance(1, 2)) g.push_back({static_cast<ClockVariables>(i), r.chance(1, 2) ? O::lt : O::le, f + r(1, 2)});
      else if (!bounded && r.chance(1, 4)) g.push_back({static_cast<ClockVariables>(i), O::le, f});
    }
    return g;
  }

  std::string seen(Rng &r, const NeighborConditions &c) {
    const auto v = c.toOriginalValuation();
    std::vector<std::string> m;
    for (int i = 0; i < 4; ++i) {
      const auto g = someGuard(r, (int) c.getClockSize(), v);
      auto t = std::make_shared<TAState>(false);
      const bool viaTransition = r.chance(1, 2);
      m.push_back("{\"g\":" + guard(g) + ",\"res\":" + num(viaTransition ? c.match(TATransition{t.get(), {}, g}) : c.match(g)) + "}");
    }
    return "\"obs\":{\"size\":" + num((long) c.getClockSize()) + ",\"precise\":" + num(c.precise()) + ",\"imprecise\":" +
           arr(c.impreciseClocks(), [](int x) { return num(x + 1); }) + ",\"val\":" + vals(v) + ",\"orig\":" + guard(c.toOriginalGuard()) +
           ",\"relaxed\":" + guard(c.toRelaxedGuard()) + ",\"match\":" + arr(m, id) + "}";
  }

  struct Rec {
    std::vector<std::string> steps;
    void add(const std::string &op, const std::string &rest) { steps.push_back("{\"op\":\"" + op + "\"," + rest + "}"); }
  };

  // A transition whose target reads exactly the clocks below size
  struct Dummy {
    std::shared_ptr<TAState> target = std::make_shared<TAState>(false), sink = std::make_shared<TAState>(false);
    TATransition make(int size, const Resets &u) {
      if (size > 0) target->next['a'].emplace_back(sink.get(), Resets{}, Guard{{static_cast<ClockVariables>(size - 1), O::ge, 0}});
      return TATransition{target.get(), u, {}};
    }
  };

  // Assignments which keep the values in non-increasing order
  bool someResets(Rng &r, const std::vector<double> &v, int size, Resets &u) {
    const int n = (int) v.size();
    for (int attempt = 0; attempt < 30; ++attempt) {
      u.clear();
      std::vector<double> w(size);
      for (int i = 0; i < size; ++i) {
        const int k = r(0, 3);
        if (k == 0 && i < n) w[i] = v[i];
        else if (k == 1) {
          const int from = r(0, n - 1);
          u.emplace_back(static_cast<ClockVariables>(i), static_cast<ClockVariables>(from));
          w[i] = v[from];
        } else {
          w[i] = r.chance(1, 2) ? r(0, 3) : i < n && r.chance(1, 2) ? v[i] : r(0, 12) / 4.0;
          u.emplace_back(static_cast<ClockVariables>(i), w[i]);
        }
      }
      if (std::is_sorted(w.rbegin(), w.rend())) return true;
    }
    return false;
  }

  void handler(Rec &o, Rng &r, const Fwd &region, const std::vector<double> &v) {
    const int n = (int) v.size();
    // guards for pieces of the walk through the successors of the region
    learnta::RenamingRelation ren;
    for (int i = 0; i < n; ++i) if (r.chance(1, 2)) ren.emplace_back(i, i);
    if (ren.empty() && r.chance(3, 4)) ren.emplace_back(0, r(0, n - 1));
    auto state = std::make_shared<TAState>(false);
    std::vector<std::shared_ptr<TAState>> targets;
    Fwd at = region;
    const int pieces = r(1, 4);
    Dummy d;
    const auto sink = std::make_shared<TAState>(false);
    int total = 0;
    for (int k = 0; k < pieces; ++k) {
      std::vector<Guard> gs;
      const int len = r.chance(1, 2) ? 1 : r(1, 3);
      for (int m = 0; m < len; ++m) {
        gs.push_back(at.getTimedCondition().toGuard());
        at.successorAssign();
        ++total;
      }
      Guard g = learnta::unionHull(gs);
      if (k == pieces - 1 || r.chance(1, 8))
        g.erase(std::remove_if(g.begin(), g.end(), [](const Constraint &c) { return c.isUpperBound(); }), g.end());
      targets.push_back(std::make_shared<TAState>(r.chance(1, 2)));
      targets.back()->next['a'].emplace_back(sink.get(), Resets{}, Guard{{static_cast<ClockVariables>(n), O::ge, 0}});
      state->next['a'].emplace_back(targets.back().get(), Resets{{static_cast<ClockVariables>(n), 0.0}}, g);
    }
    auto list = [&] {
      return arr(state->next['a'], [&](const TATransition &t) {
        int k = 0;
        while (k < (int) targets.size() && targets[k].get() != t.target) ++k;
        return "{\"g\":" + guard(t.guard) + ",\"t\":" + num(k) + "}";
      });
    };
    const auto before = list();
    learnta::ImpreciseClockHandler h;
    h.push(state.get(), ren, region);
    h.run();
    const auto right = ren.rightVariables();
    o.add("handler", "\"right\":" + clocks(right) + ",\"len\":" + num(total) + ",\"before\":" + before + ",\"after\":" + list());
  }

  void walk(std::ostream &out, int seed) {
    Rng r(seed);
    Rec o;
    const int n0 = r(1, 3);
    std::vector<double> d;
    for (int i = 0; i < n0; ++i) d.push_back(r.chance(1, 4) ? r(0, 1) : r(0, 8) / (r.chance(1, 2) ? 4.0 : 8.0));
    const Fwd region = Fwd::fromTimedWord(TimedWord{std::string(n0 - 1, 'a'), d});
    std::unordered_set<ClockVariables> P;
    for (int i = 0; i < n0; ++i) if (r.chance(1, 2)) P.insert(i);
    if (P.empty() && r.chance(9, 10)) P.insert(r(0, n0 - 1));
    NeighborConditions c = r.chance(1, 2) ? NeighborConditions{region, P}
                                         : NeighborConditions{region, std::vector<ClockVariables>{P.begin(), P.end()}};
    const auto P0 = P;
    o.add("start", seen(r, c));
    const auto nb = NeighborConditions::makeNeighbors(region, P);
    o.add("around", "\"P\":" + clocks(P) + ",\"l\":" + arr(nb, [](const auto &l) { return bounds(l.getTimedCondition()); }));
    if (n0 <= 3) for (int i = 0; i < 2; ++i) handler(o, r, region, c.toOriginalValuation());
    auto precise = [&] {
      std::unordered_set<ClockVariables> p;
      const auto im = c.impreciseClocks();
      for (int i = 0; i < (int) c.getClockSize(); ++i) if (std::find(im.begin(), im.end(), i) == im.end()) p.insert(i);
      return p;
    };
    for (int i = 0; i < 9; ++i) {
      const int n = (int) c.getClockSize();
      const bool none = precise().empty();
      const int k = r(0, 9);
      if (k <= 1 && n < 4) {
        c = c.successor('a');
        o.add("letter", seen(r, c));
      } else if (k <= 7 && !none) {
        if (r.chance(1, 2)) c = c.successor(); else c.successorAssign();
        bool big = false;
        for (double x: c.toOriginalValuation()) big = big || x > 7;
        o.add("time", seen(r, c));
        if (big) break;
      } else if (k == 8) {
        const int size = r(1, std::min(4, n + 1));
        Dummy t;
        const auto v = c.toOriginalValuation();
        Resets u;
        const bool internal = n < 4 && r.chance(1, 3);
        if (internal) u = {{static_cast<ClockVariables>(n), 0.0}};
        else if (!someResets(r, v, size, u)) continue;
        const auto tr = t.make(size, u);
        if (!internal && u.size() == 1 && u[0].first == n && u[0].second.index() == 0 && std::get<double>(u[0].second) == 0) continue;
        o.add("preciseAfter", "\"P\":" + clocks(precise()) + ",\"u\":" + resets(u) + ",\"size\":" + num(size) + ",\"out\":" + clocks(c.preciseClocksAfterReset(tr)));
        const auto p = precise();
        const auto pa = NeighborConditions::preciseClocksAfterReset(p, tr);
        o.add("embed", "\"u\":" + resets(u) + ",\"P\":" + clocks(pa) + ",\"size\":5,\"val\":" + vals(v) + ",\"out\":" +
                       resets(learnta::ImpreciseClockHandler::embedIfImprecise(u, pa, v)));
        if (!internal && c.getClockSize() < 2 && size > 1) continue; // there is no letter to extend the word with
        c = c.makeAfterTransition('a', tr);
        o.add("after", "\"u\":" + resets(u) + ",\"size\":" + num(size) + "," + seen(r, c));
      } else {
        std::unordered_set<ClockVariables> q;
        for (int x = 0; x < n; ++x) if (r.chance(1, 2)) q.insert(x);
        c = c.reconstruct(q);
        o.add("again", "\"P\":" + clocks(q) + "," + seen(r, c));
      }
    }
    out << "{\"id\":\"n" << seed << "\",\"d\":" << vals(d) << ",\"P\":" << clocks(P0) << ",\"steps\":" << arr(o.steps, id) << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<Case> cases;
  for (int s = from; s < to; ++s) cases.push_back({"n" + num(s), cpu, [=](std::ostream &o) { walk(o, s); }});
  runCases(cases, argv[1], jobs);
  return 0;
}
