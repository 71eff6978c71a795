// Transitions made from renaming relations, resets and morphisms (for Assignments.tla).
//   transitions OUT JOBS CPU FROM TO
#include "gen.hh"
#include "elementary_language.hh"
#include "juxtaposed_zone.hh"
#include "renaming_relation.hh"
#include "external_transition_maker.hh"
#include "internal_transition_maker.hh"
#include "single_morphism.hh"

using namespace vt;
using learnta::Bounds;
using learnta::ElementaryLanguage;
using learnta::ExternalTransitionMaker;
using learnta::InternalTransitionMaker;
using learnta::RenamingRelation;
using learnta::SingleMorphism;
using learnta::TimedCondition;

namespace {
  std::string id(const std::string &s) { return s; }
  std::string num(long x) { return std::to_string(x); }
  std::string one(int i, int j, const Bounds &b) { return "[" + num(i) + "," + num(j) + "," + num(scaled(b.first, 1)) + "," + (b.second ? "1" : "0") + "]"; }

  std::string bounds(const TimedCondition &c) {
    std::vector<std::string> r;
    const int n = (int) c.size();
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) {
        const int y = j == n - 1 ? 0 : j + 2;
        const auto u = c.getUpperBound(i, j), l = c.getLowerBound(i, j);
        if (u.first < 1e6) r.push_back(one(i + 1, y, u));
        if (l.first < 1e6) r.push_back(one(y, i + 1, l));
      }
    return arr(r, id);
  }

  std::string guard(const std::vector<Constraint> &g) {
    return arr(g, [](const Constraint &c) {
      const int x = int(c.x) + 1;
      switch (c.odr) {
        case Constraint::Order::lt: return one(x, 0, {c.c, false});
        case Constraint::Order::le: return one(x, 0, {c.c, true});
        case Constraint::Order::gt: return one(0, x, {-c.c, false});
        default: return one(0, x, {-c.c, true});
      }
    });
  }

  // [assigned clock, copied clock (0: a constant), the constant scaled by 16]
  std::string resets(const TATransition::Resets &rs) {
    return arr(rs, [](const auto &p) {
      const bool copy = p.second.index() == 1;
      return "[" + num(int(p.first) + 1) + "," + num(copy ? int(std::get<ClockVariables>(p.second)) + 1 : 0) + "," +
             num(copy ? 0 : scaled(std::get<double>(p.second), 16)) + "]";
    });
  }

  std::string pairs(const RenamingRelation &r) {
    return arr(r, [](const auto &q) { return "[" + num((long) q.first + 1) + "," + num((long) q.second + 1) + "]"; });
  }

  std::string values16(const std::vector<double> &v) { return arr(v, [](double x) { return num(scaled(x, 16)); }); }

  struct Gen {
    Rng r;
    explicit Gen(std::uint64_t seed) : r(seed * 977 + 11) {}

    // Accumulated durations on the grid 1/4, at most l
    std::vector<double> values(int n, int l) {
      std::vector<double> v(n);
      for (auto &x: v) x = r.chance(2, 5) ? r(0, l) : r(0, 4 * l) * 0.25;
      std::sort(v.rbegin(), v.rend());
      return v;
    }

    static bool sat(const TimedCondition &s, const TimedCondition &t, const RenamingRelation &r) {
      auto j = s ^ t;
      j.addRenaming(r);
      return j.isSatisfiableNoCanonize();
    }

    // A satisfiable renaming. Values of the target are often taken over from the source.
    struct Morphism { TimedCondition s, t; RenamingRelation r; };
    Morphism morphism(int n, int m, bool unbounded) {
      for (;;) {
        const auto v = values(n, unbounded ? 1 : 2);
        auto w = values(m, unbounded ? 1 : 2); // all sums stay below the bound of the specification
        if (r.chance(3, 5)) {
          for (auto &x: w) if (r.chance(2, 3)) x = v.at(r(0, n - 1));
          std::sort(w.rbegin(), w.rend());
        }
        Morphism q{TimedCondition(v), TimedCondition(w), {}};
        if (unbounded) q.s.removeUpperBoundAssign();
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < m; ++j)
            if (r.chance(v[i] == w[j] ? 2 : 1, 4)) q.r.emplace_back(i, j);
        std::shuffle(q.r.begin(), q.r.end(), r.g);
        if (sat(q.s, q.t, q.r)) return q;
      }
    }

    std::string facts(const RenamingRelation &rr, const TimedCondition &s, const TimedCondition &t) {
      auto rights = rr.rightVariables();
      std::string e = "{\"r\":" + pairs(rr) + ",\"rights\":" + arr(rights, [](auto x) { return num(int(x) + 1); }) +
                      ",\"unique\":" + b2s(rr.isRightUnique()) + ",\"full\":" + b2s(rr.full(t)) +
                      ",\"only\":" + b2s(rr.onlyTrivial(t)) + ",\"all\":" + b2s(rr.containsAllTrivial(s, t)) +
                      ",\"imp\":" + b2s(rr.hasImpreciseClocks(t)) +
                      ",\"imps\":" + arr(rr.impreciseClocks(t), [](auto x) { return num(int(x) + 1); });
      return e + "}";
    }

    std::string renaming() {
      const int n = r(1, 3), m = r(1, std::min(3, 4 - n));
      const auto q = morphism(n, m, r.chance(1, 4));
      auto implied = q.r;
      if (r.chance(1, 2)) implied.addImplicitConstraints(q.s, q.t);
      else implied.addImplicitConstraints(q.s ^ q.t);
      auto erased = q.r;
      const int left = r(0, n - 1);
      erased.eraseLeft(left);
      const auto v1 = RenamingRelation::toValuation(q.t);
      const auto v2 = ExternalTransitionMaker::toValuation(q.t);
      return "\"n\":" + num(n) + ",\"m\":" + num(m) + ",\"s\":" + bounds(q.s) + ",\"t\":" + bounds(q.t) + ",\"facts\":[" +
             facts(q.r, q.s, q.t) + "," + facts(implied, q.s, q.t) + "],\"left\":" + num(left + 1) + ",\"erased\":" + pairs(erased) +
             ",\"vals\":[" + values16(v1) + "," + values16(v2) + "]";
    }

    std::string maker() {
      const int n = r(1, 3);
      const int k = r.chance(1, 3) ? 1 : r.chance(1, 2) ? 2 : 3;
      const bool unbounded = r.chance(1, 4);
      std::vector<std::shared_ptr<TAState>> targets;
      std::vector<int> sizes;
      for (int i = 0; i < 2; ++i) {
        targets.push_back(std::make_shared<TAState>(false));
        sizes.push_back(r(1, 4 - n));
      }
      ExternalTransitionMaker mk;
      std::vector<std::string> adds;
      std::vector<RenamingRelation> used[2];
      for (int i = 0; i < k; ++i) {
        const int t = r(0, 1);
        auto q = morphism(n, sizes[t], unbounded);
        // the same renaming with another source and target
        if (!used[t].empty() && r.chance(1, 2)) {
          const auto &again = used[t].at(r(0, (int) used[t].size() - 1));
          if (sat(q.s, q.t, again)) q.r = again;
        }
        used[t].push_back(q.r);
        mk.add(targets[t], q.r, q.s, q.t);
        adds.push_back("{\"to\":" + num(t + 1) + ",\"m\":" + num(sizes[t]) + ",\"s\":" + bounds(q.s) + ",\"t\":" + bounds(q.t) + ",\"r\":" + pairs(q.r) + "}");
      }
      return "\"n\":" + num(n) + ",\"adds\":" + arr(adds, id) + ",\"trs\":" + transitions(mk.make(), targets);
    }

    static std::string transitions(const std::vector<TATransition> &ts, const std::vector<std::shared_ptr<TAState>> &targets) {
      return arr(ts, [&](const TATransition &t) {
        long k = 0;
        for (std::size_t i = 0; i < targets.size(); ++i) if (targets[i].get() == t.target) k = (long) i + 1;
        return "{\"to\":" + num(k) + ",\"g\":" + guard(t.guard) + ",\"v\":" + resets(t.resetVars) + "}";
      });
    }

    std::string internal() {
      const int n = r(1, 3);
      std::vector<std::shared_ptr<TAState>> targets;
      for (int i = 0; i < 2; ++i) targets.push_back(std::make_shared<TAState>(false));
      InternalTransitionMaker mk;
      std::vector<std::string> adds;
      for (int k = r(1, 3); k > 0; --k) {
        const int t = r(0, 1);
        const TimedCondition s(values(n, 2));
        mk.add(targets[t], s);
        adds.push_back("{\"to\":" + num(t + 1) + ",\"s\":" + bounds(s) + "}");
      }
      return "\"n\":" + num(n) + ",\"adds\":" + arr(adds, id) + ",\"trs\":" + transitions(mk.make(), targets);
    }

    TATransition::Resets assignment(int n) {
      TATransition::Resets a;
      for (int i = 0; i < n; ++i)
        if (r.chance(2, 3)) {
          if (r.chance(1, 2)) a.emplace_back(i, r(0, 8) * 0.25);
          else a.emplace_back(i, static_cast<ClockVariables>(r(0, n - 1)));
        }
      std::shuffle(a.begin(), a.end(), r.g);
      return a;
    }

    std::string compose() {
      const int n = r(1, 4);
      const auto a = assignment(n), b = assignment(n);
      return "\"n\":" + num(n) + ",\"first\":" + resets(b) + ",\"second\":" + resets(a) + ",\"both\":" + resets(learnta::composition(a, b)) +
             ",\"def\":" + resets(learnta::addDefault(a, b)) + ",\"clean\":" + resets(learnta::clean(a));
    }

    std::string maps() {
      const int n = r(1, 3), m = r(1, std::min(3, 4 - n));
      const auto q = morphism(n, m, false);
      const std::string u(n - 1, 'a'), w = std::string(m - 1, 'b');
      const ElementaryLanguage dom{u, q.s}, cod{w, q.t};
      const SingleMorphism mor{dom, cod, q.r};
      // a member of the domain
      const auto x = dom.sample();
      const auto y = mor.maps(x);
      const long k = wordScale(x) * wordScale(y);
      auto acc = [&](const TimedWord &z) {
        const auto d = z.getDurations();
        std::vector<long> a(d.size());
        long sum = 0;
        for (int i = (int) d.size() - 1; i >= 0; --i) { sum += scaled(d[i], k); a[i] = sum; }
        return arr(a, num);
      };
      return "\"n\":" + num(n) + ",\"m\":" + num(m) + ",\"s\":" + bounds(q.s) + ",\"t\":" + bounds(q.t) + ",\"r\":" + pairs(q.r) +
             ",\"k\":" + num(k) + ",\"x\":" + acc(x) + ",\"y\":" + acc(y) + ",\"word\":" + b2s(y.getWord() == w) +
             ",\"dom\":" + b2s(mor.inDomain(x) && mor.isDomain(dom));
    }
  };
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::atoi(argv[2]), cpu = std::atoi(argv[3]);
  std::vector<Case> cases;
  for (int i = std::atoi(argv[4]); i < std::atoi(argv[5]); ++i)
    cases.push_back({"a" + num(i), cpu, [i](std::ostream &o) {
      Gen g(i);
      const char *kinds[] = {"renaming", "maker", "maker", "internal", "compose", "maps"};
      // many small cases of one kind per record of the driver
      const std::string kind = kinds[i % 6];
      for (int j = 0; j < 10; ++j) {
        std::string b = kind == "renaming" ? g.renaming() : kind == "maker" ? g.maker() : kind == "internal" ? g.internal()
                        : kind == "compose" ? g.compose() : g.maps();
        o << "{\"id\":\"a" << i << "." << j << "\",\"kind\":\"" << kind << "\"," << b << "}\n";
      }
    }});
  runCases(cases, argv[1], jobs);
  return 0;
}
