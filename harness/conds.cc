// Histories of operations on timed conditions (for CondOps.tla).
//   conds OUT JOBS CPU FROM TO
#include "gen.hh"
#include "elementary_language.hh"
#include "timed_condition.hh"
#include "timed_condition_set.hh"

using namespace vt;
using learnta::Bounds;
using learnta::ElementaryLanguage;
using learnta::JuxtaposedZone;
using learnta::TimedCondition;
using learnta::TimedConditionSet;
using learnta::Zone;

namespace {
  std::string id(const std::string &s) { return s; }
  std::string num(long x) { return std::to_string(x); }

  std::string one(int i, int j, const Bounds &b, long scale = 1) {
    return "[" + num(i) + "," + num(j) + "," + num(scaled(b.first, scale)) + "," + (b.second ? "1" : "0") + "]";
  }

  // The reported bounds of all the sums of durations, as bounds on clocks
  std::string bounds(const TimedCondition &c, long scale = 1) {
    std::vector<std::string> r;
    const int n = (int) c.size();
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) {
        const int y = j == n - 1 ? 0 : j + 2;
        const auto u = c.getUpperBound(i, j), l = c.getLowerBound(i, j);
        if (u.first < 1e6) r.push_back(one(i + 1, y, u, scale));
        if (l.first < 1e6) r.push_back(one(y, i + 1, l, scale));
      }
    return arr(r, id);
  }

  std::string bounds(const Zone &z) {
    std::vector<std::string> r;
    const int n = (int) z.getNumOfVar();
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= n; ++j)
        if (i != j && z.value(i, j).first < 1e6) r.push_back(one(i, j, z.value(i, j)));
    return arr(r, id);
  }

  struct History {
    Rng r;
    std::vector<TimedCondition> reg;
    std::vector<std::string> steps;

    explicit History(std::uint64_t seed) : r(seed * 131 + 3), reg(3) {}

    static int lim(int n) { return n == 1 ? 5 : n == 2 ? 4 : n == 3 ? 3 : 2; }
    int pickSize() { return r.chance(1, 5) ? 1 : r.chance(3, 5) ? 2 : 3; }
    static bool sat(const TimedCondition &c) { TimedCondition t = c; return static_cast<bool>(t); }
    static bool bounded(const TimedCondition &c, int l) {
      const auto u = c.getUpperBound(0, c.size() - 1);
      return u.first < 1e6 && u.first <= l;
    }
    bool bounded(const TimedCondition &c) { return bounded(c, lim((int) c.size())); }

    // Accumulated durations on the grid 1/4, at most l
    std::vector<double> values(int n, int l) {
      std::vector<double> d(n);
      double budget = l;
      for (int i = 0; i < n; ++i) {
        double x = r.chance(2, 5) ? r(0, 2) : r(0, 8) * 0.25;
        x = std::min(x, budget);
        d[i] = x;
        budget -= x;
      }
      std::shuffle(d.begin(), d.end(), r.g);
      for (int i = n - 2; i >= 0; --i) d[i] += d[i + 1];
      return d;
    }

    void emit(const std::string &op, int dst, int a, int b, int n, const std::string &z, const std::string &extra) {
      steps.push_back("{\"op\":" + quote(op) + ",\"dst\":" + num(dst + 1) + ",\"a\":" + num(a + 1) + ",\"b\":" + num(b + 1) +
                      ",\"n\":" + num(n) + ",\"z\":" + z + extra + "}");
    }
    void emit(const std::string &op, int dst, int a, int b, const std::string &extra = "") {
      emit(op, dst, a, b, (int) reg[dst].size(), bounds(reg[dst]), extra);
    }

    // Are all the sums beyond what the specification explores?
    static bool far(const TimedCondition &c) { return sat(c) && -c.getLowerBound(0, c.size() - 1).first > 2; }

    void make(int d, int n, int l) {
      const auto v = values(n, l);
      reg[d] = TimedCondition(v);
      emit("make", d, d, d, ",\"v\":" + arr(v, [](double x) { return num(scaled(x, 4)); }));
    }

    // A bounded convex condition of size n in register d (register t is used for the pieces)
    void fresh(int d, int n = 0) {
      if (n == 0) n = pickSize();
      int l = lim(n);
      if (n == 2 && r.chance(1, 3)) l = 2;
      make(d, n, l);
      const int t = (d + 1) % 3;
      const auto keep = reg[t];
      for (int k = r(0, 3); k > 0; --k) {
        make(t, n, l);
        reg[d] = reg[d].convexHull(reg[t]);
        emit("hull", d, d, t);
      }
    }

    void look(int a, int b) {
      const auto &x = reg[a];
      const auto &y = reg[b];
      const int n = (int) x.size();
      const bool s = sat(x);
      std::string e = ",\"sat\":" + num(s) + ",\"size\":" + num((long) x.size());
      if (s) {
        const ElementaryLanguage el{std::string(n - 1, 'a'), x};
        // sampling needs bounded sums
        const bool bnd = x.getUpperBound(0, n - 1).first < 1e6;
        const auto w = bnd ? el.sample() : TimedWord{std::string(n - 1, 'a'), std::vector<double>(n, 0)};
        const long k = bnd ? wordScale(w) : 0;
        std::vector<long> acc(n);
        long sum = 0;
        for (int i = n - 1; i >= 0; --i) { sum += bnd ? scaled(w.getDurations().at(i), k) : 0; acc[i] = sum; }
        const auto pt = values(n, lim(n));
        std::vector<double> dur(n);
        for (int i = 0; i < n; ++i) dur[i] = pt[i] - (i + 1 < n ? pt[i + 1] : 0);
        std::vector<std::string> point;
        for (int i = 0; i < n; ++i) point.push_back(num(x.isPoint(i)));
        e += ",\"k\":" + num(k) + ",\"samp\":" + arr(acc, num) + ",\"simple\":" + num(x.isSimple()) + ",\"point\":" + arr(point, id) +
             ",\"prefix\":" + num(x.hasPrefix()) + ",\"suffix\":" + num(x.hasSuffix()) + ",\"pt\":" +
             arr(pt, [](double q) { return num(scaled(q, 4)); }) + ",\"contains\":" +
             num(el.contains(TimedWord{std::string(n - 1, 'a'), dur})) + ",\"enum\":" +
             (bounded(x) ? arr(r.chance(1, 2) ? x.enumerate() : conds(el.enumerate()), [](const auto &c) { return bounds(c); }) : "[]");
        int inc = -1, eq = -1, exam = 0;
        std::vector<std::size_t> strict;
        if ((int) y.size() == n && sat(y)) {
          inc = x.includes(y);
          eq = x == y;
          if ((x != y) == (eq == 1)) eq = 2;
          exam = r(1, n);
          strict = x.getStrictlyConstrainedVariables(y, exam);
        }
        e += ",\"inc\":" + num(inc) + ",\"eq\":" + num(eq) + ",\"exam\":" + num(exam) + ",\"strict\":" + arr(strict, [](std::size_t q) { return num((long) q); });
      } else {
        e += ",\"simple\":0";
      }
      emit("look", -1, a, b, n, "[]", e);
    }

    static std::vector<TimedCondition> conds(const std::vector<ElementaryLanguage> &ls) {
      std::vector<TimedCondition> res;
      for (const auto &l: ls) res.push_back(l.getTimedCondition());
      return res;
    }

    void run(int len) {
      for (int d = 0; d < 3; ++d) fresh(d);
      int guard = 0;
      while ((int) steps.size() < len && ++guard < 400) {
        const int d = r(0, 2), a = d, b = r(0, 2);
        const int n = (int) reg[a].size();
        switch (r(0, 15)) {
          case 0: {
            const int i = r(0, n - 1), j = r(i, n - 1), c = r(0, lim(n)), s = r(0, 1), y = j == n - 1 ? 0 : j + 2;
            std::string bs;
            if (r.chance(1, 2)) {
              reg[d].restrictUpperBound(i, j, Bounds{double(c), s == 1}, false);
              bs = one(i + 1, y, Bounds{double(c), s == 1});
            } else {
              reg[d].restrictLowerBound(i, j, Bounds{double(-c), s == 1}, false);
              bs = one(y, i + 1, Bounds{double(-c), s == 1});
            }
            emit("bound", d, a, b, ",\"b1\":[" + bs + "]");
            break;
          }
          case 1:
            if (reg[b].size() != reg[a].size() || a == b) break;
            reg[d] = reg[a] && reg[b];
            emit("and", d, a, b);
            break;
          case 2: case 3: {
            const int o = r(0, 2);
            // sums of unbounded durations are not needed by the library
            if (!bounded(reg[a], 100) || !bounded(reg[b], 100)) break;
            if (reg[a].size() + reg[b].size() > 5) break;
            if (reg[a].size() + reg[b].size() == 5 && !r.chance(1, 4)) break;
            const auto left = reg[a];
            if (r.chance(1, 2)) reg[o] = reg[a] + reg[b];
            else
              reg[o] = (ElementaryLanguage{std::string(n - 1, 'a'), reg[a]} +
                        ElementaryLanguage{std::string(reg[b].size() - 1, 'a'), reg[b]}).getTimedCondition();
            emit("plus", o, a, b);
            break;
          }
          case 4:
            if (reg[b].size() != reg[a].size() || !bounded(reg[a]) || !bounded(reg[b]) || a == b) break;
            if (r.chance(1, 2)) reg[d] = reg[a].convexHull(reg[b]);
            else
              reg[d] = ElementaryLanguage::convexHull({ElementaryLanguage{std::string(n - 1, 'b'), reg[a]},
                                                       ElementaryLanguage{std::string(n - 1, 'b'), reg[b]}}).getTimedCondition();
            emit("hull", d, a, b);
            break;
          case 5:
            if (n > 2) break;
            reg[d] = reg[a].extendN();
            emit("extendN", d, a, b);
            if (r.chance(1, 2) && bounded(reg[d])) {
              reg[d] = reg[d].removeN();
              emit("removeN", d, d, b);
            }
            break;
          case 6:
            if (n > 2) break;
            reg[d] = reg[a].extendZero();
            emit("extendZero", d, a, b);
            break;
          case 7: {
            auto c = reg[a];
            c.removeUpperBoundAssign();
            emit("elapse", r.chance(1, 3) ? d : -1, a, b, n, bounds(c), "");
            if (steps.back().find("\"dst\":0") == std::string::npos) reg[d] = c;
            break;
          }
          case 8: {
            if (!bounded(reg[a])) break;
            std::vector<std::string> bs;
            for (const auto &g: reg[a].toGuard()) {
              const bool up = g.odr == Constraint::Order::lt || g.odr == Constraint::Order::le;
              const bool eq = g.odr == Constraint::Order::ge || g.odr == Constraint::Order::le;
              bs.push_back(up ? one(g.x + 1, 0, Bounds{double(g.c), eq}) : one(0, g.x + 1, Bounds{double(-g.c), eq}));
            }
            emit("guard", -1, a, b, n, arr(bs, id), "");
            break;
          }
          case 9: {
            if (!bounded(reg[a], 3)) break;
            learnta::TATransition::Resets rs;
            std::vector<std::string> vs;
            for (int i = 0; i < n; ++i) {
              if (r.chance(1, 2)) { vs.push_back("-1"); continue; }
              const int v = r(0, 5);
              vs.push_back(num(v));
              rs.emplace_back(i, v * 0.5);
            }
            std::shuffle(rs.begin(), rs.end(), r.g);
            const auto c = reg[a].applyResets(rs);
            emit("reset", -1, a, b, n, zoneOf(c), ",\"v\":" + arr(vs, id));
            break;
          }
          case 10: case 11: {
            if (!bounded(reg[a], 3)) break;
            const int m = r(1, 3);
            learnta::TATransition::Resets rs;
            std::vector<std::string> vs, src;
            for (int i = 0; i < m; ++i) {
              const int what = i >= n ? r(1, 2) : r(0, 2);
              if (what == 0) { vs.push_back("0"); src.push_back(num(i + 1)); continue; }
              if (what == 1) {
                const int v = r(0, 5);
                vs.push_back(num(v));
                src.push_back("0");
                rs.emplace_back(i, v * 0.5);
              } else {
                const int y = r(0, n - 1);
                vs.push_back("0");
                src.push_back(num(y + 1));
                rs.emplace_back(i, static_cast<ClockVariables>(y));
              }
            }
            for (int i = m; i < 3; ++i) if (r.chance(1, 4)) rs.emplace_back(i, 0.0);
            std::shuffle(rs.begin(), rs.end(), r.g);
            const auto c = reg[a].applyResets(rs, m);
            emit("resets", -1, a, b, m, zoneOf(c), ",\"v\":" + arr(vs, id) + ",\"src\":" + arr(src, id));
            break;
          }
          case 12: case 13: {
            const int m = (int) reg[b].size();
            const int L = r.chance(1, 2) ? 0 : r(0, std::min(n, m));
            const int t = n + m - L;
            if (t > 4 || (t == 4 && !r.chance(1, 3))) break;
            if (!bounded(reg[a], 2) || !bounded(reg[b], 2)) break;
            JuxtaposedZone z = L == 0 && r.chance(2, 3) ? (reg[a] ^ reg[b])
                             : r.chance(1, 2) ? reg[a].juxtaposeRight(reg[b], L) : reg[b].juxtaposeLeft(reg[a], L);
            std::vector<std::string> ren;
            if (L == 0) {
              std::vector<std::pair<std::size_t, std::size_t>> re;
              for (int i = 0; i < n; ++i)
                for (int j = 0; j < m; ++j)
                  if (r.chance(1, 3)) {
                    re.emplace_back(i, j);
                    ren.push_back("[" + num(i + 1) + "," + num(j + 1) + "]");
                  }
              z.addRenaming(re);
            }
            const bool s = z.isSatisfiableNoCanonize();
            std::string e = ",\"com\":" + num(L) + ",\"ren\":" + arr(ren, id) + ",\"sat\":" + num(s);
            if (L == 0 && s)
              e += ",\"right\":" + bounds(z.getRight()) + ",\"eqs\":" +
                   arr(z.makeRenaming(), [](const auto &q) { return "[" + num((long) q.first + 1) + "," + num((long) q.second + 1) + "]"; });
            else e += ",\"right\":[],\"eqs\":[]";
            emit("juxt", -1, a, b, t, s ? bounds(z) : "[]", e);
            break;
          }
          case 14: {
            const int m = r(1, 2);
            const auto v = values(m, 2);
            emit("exact", -1, a, b, m, bounds(TimedCondition::makeExact(v), 4), ",\"v\":" + arr(v, [](double x) { return num(scaled(x, 4)); }));
            break;
          }
          case 15: {
            if (!bounded(reg[a], 3)) break;
            auto all = reg[a].enumerate();
            std::shuffle(all.begin(), all.end(), r.g);
            std::list<ElementaryLanguage> in;
            std::vector<TimedCondition> chosen;
            const int pct = r(3, 10);
            for (const auto &c: all)
              if (r.chance(pct, 10) && chosen.size() < 24) { chosen.push_back(c); in.emplace_back(std::string(n - 1, 'a'), c); }
            const auto res = TimedConditionSet::reduce(in);
            emit("reduce", -1, a, b, n, "[]", ",\"in\":" + arr(chosen, [](const auto &c) { return bounds(c); }) + ",\"rs\":" +
                 arr(res.getConditions(), [](const auto &c) { return bounds(c); }));
            break;
          }
        }
        const int l = r(0, 2);
        const bool seen = r.chance(1, 2) && !far(reg[d]) && !far(reg[l]);
        if (seen) look(d, l);
        for (int x = 0; x < 3; ++x) {
          if (!sat(reg[x])) { look(x, x); fresh(x); }
          else if (reg[x].size() > 3 || far(reg[x])) fresh(x);
          else if (!bounded(reg[x]) && r.chance(1, 4)) fresh(x);
        }
      }
    }

    // All the bounds (the result of an assignment is not a set of duration vectors)
    static std::string zoneOf(const TimedCondition &c) {
      // juxtaposing with a condition of the same size leaves the bounds of the left part
      const TimedCondition one = TimedCondition::empty();
      const JuxtaposedZone z = c ^ one;
      std::vector<std::string> r;
      const int n = (int) c.size();
      for (int i = 0; i <= n; ++i)
        for (int j = 0; j <= n; ++j)
          if (i != j && z.value(i, j).first < 1e6) r.push_back(::one(i, j, z.value(i, j)));
      return arr(r, id);
    }
  };
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::atoi(argv[2]), cpu = std::atoi(argv[3]);
  std::vector<Case> cases;
  for (int i = std::atoi(argv[4]); i < std::atoi(argv[5]); ++i)
    cases.push_back({"c" + num(i), cpu, [i](std::ostream &o) {
      History h(i);
      h.run(22);
      o << "{\"id\":\"c" << i << "\",\"steps\":" << arr(h.steps, id) << "}\n";
    }});
  runCases(cases, argv[1], jobs);
  return 0;
}
