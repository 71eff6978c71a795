// The guard algebra: recorded evaluations.
//   guards OUT JOBS CPU FROM TO
#include "vt.hh"

using namespace learnta;
using Guard = std::vector<Constraint>;

namespace {
  using O = Constraint::Order;
  const std::vector<O> ops{O::lt, O::le, O::ge, O::gt};

  std::string gj(const Guard &g) {
    return vt::arr(g, [](const Constraint &c) {
      return "[" + std::to_string(int(c.x) + 1) + "," + vt::opName(c.odr) + "," + std::to_string(c.c) + "]";
    });
  }
  std::string gsj(const std::vector<Guard> &gs) { return vt::arr(gs, gj); }
  std::string n2s(long x) { return std::to_string(x); }

  struct Rec {
    std::vector<std::string> steps;
    void add(const std::string &op, const std::string &rest) { steps.push_back("{\"op\":" + vt::quote(op) + "," + rest + "}"); }
  };

  std::string bj(const std::vector<IntBounds> &bs) {
    return vt::arr(bs, [](const IntBounds &b) {
      return "[" + std::to_string(b.first == std::numeric_limits<int>::max() ? 1000000 : b.first) + "," + (b.second ? "1" : "0") + "]";
    });
  }

  void one(Rec &o, const Constraint &c, int top = 9) {
    std::vector<int> sat, cmp;
    for (int v = 0; v <= top; ++v) {
      sat.push_back(c.satisfy(v * 0.5));
      std::vector<double> val(c.x + 1, 100.0);
      val.at(c.x) = v * 0.5;
      const auto odr = c(val);
      cmp.push_back(odr == learnta::Order::EQ ? 0 : odr == learnta::Order::GT ? 1 : -1);
    }
    o.add("satisfy", "\"g\":" + gj({c}) + ",\"res\":" + vt::arr(sat, n2s));
    o.add("compare", "\"g\":" + gj({c}) + ",\"res\":" + vt::arr(cmp, n2s));
    o.add("negate1", "\"g\":" + gj({c}) + ",\"out\":" + gj({c.negate()}));
  }

  void guard(Rec &o, const Guard &g, int n) {
    if (!g.empty()) o.add("negateAll", "\"g\":" + gj(g) + ",\"out\":" + gj(negateAll(g)));
    o.add("simplify", "\"g\":" + gj(g) + ",\"out\":" + gj(simplify(g)));
    o.add("satisfiable", "\"g\":" + gj(g) + ",\"res\":" + n2s(satisfiable(g)));
    const auto &[up, lo] = toBounds(g);
    o.add("bounds", "\"g\":" + gj(g) + ",\"up\":" + bj(up) + ",\"lo\":" + bj(lo));
    o.add("simple", "\"g\":" + gj(g) + ",\"res\":" + vt::arr(simpleVariables(g), [](auto x) { return n2s(x + 1); }));
    auto w = g;
    widen(w);
    o.add("widen", "\"g\":" + gj(g) + ",\"out\":" + gj(w));
    auto u = simplify(g);
    addUpperBound(u);
    o.add("addUpper", "\"g\":" + gj(g) + ",\"out\":" + gj(u));
  }

  void wait(Rec &o, vt::Rng &r, const Guard &g, int n, int most = 7) {
    std::vector<int> v;
    std::vector<double> d;
    for (int i = 0; i < n; ++i) {
      v.push_back(r(0, most));
      d.push_back(v.back() * 0.5);
    }
    const auto b = lowerBoundDurationToSatisfy(g, d);
    o.add("wait", "\"g\":" + gj(g) + ",\"v\":" + vt::arr(v, n2s) + ",\"res\":" +
                  (std::isfinite(b.first) ? "[" + std::to_string(vt::scaled(-b.first, 4)) + "," + (b.second ? "1" : "0") + "]" : "[1000000,0]"));
  }

  void pair(Rec &o, const Guard &g, const Guard &h) {
    o.add("conjunction", "\"g\":" + gj(g) + ",\"h\":" + gj(h) + ",\"out\":" + gj(conjunction(g, h)));
    o.add("weaker", "\"g\":" + gj(g) + ",\"h\":" + gj(h) + ",\"norm\":0,\"res\":" + n2s(isWeaker(g, h)));
    const auto sg = simplify(g), sh = simplify(h);
    o.add("weaker", "\"g\":" + gj(sg) + ",\"h\":" + gj(sh) + ",\"norm\":1,\"res\":" + n2s(isWeaker(sg, sh)));
    o.add("adjacent", "\"g\":" + gj(g) + ",\"h\":" + gj(h) + ",\"res\":" + n2s(adjacent(g, h)));
    if (satisfiable(g) && satisfiable(h)) o.add("hull", "\"gs\":" + gsj({g, h}) + ",\"out\":" + gj(unionHull(g, h)));
    if (g.size() == 1 && h.size() == 1)
      o.add("equal", "\"g\":" + gj(g) + ",\"h\":" + gj(h) + ",\"res\":" + n2s(g[0] == h[0]) + ",\"hash\":" + n2s(hash_value(g[0]) == hash_value(h[0])));
  }

  // all guards of one clock with at most two constraints and constants up to m
  std::vector<Guard> small(int m) {
    std::vector<Constraint> cs;
    for (int c = 0; c <= m; ++c) for (auto op: ops) cs.push_back({0, op, c});
    std::vector<Guard> gs{{}};
    for (auto &a: cs) gs.push_back({a});
    for (auto &a: cs) for (auto &b: cs) if (!(a == b)) gs.push_back({a, b});
    return gs;
  }

  Guard randomGuard(vt::Rng &r, int n, int m, bool box) {
    Guard g;
    if (box) {
      for (int x = 0; x < n; ++x) {
        const auto v = static_cast<ClockVariables>(x);
        const int lo = r(0, m), hi = std::min(m, lo + r(0, 2));
        if (r.chance(3, 5)) g.push_back({v, lo == hi || r.chance(1, 2) ? O::ge : O::gt, lo});
        if (r.chance(3, 5)) g.push_back({v, lo == hi || r.chance(1, 2) ? O::le : O::lt, hi});
      }
      if (r.chance(1, 3)) for (std::size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r(0, (int) i - 1)]);
      return g;
    }
    const int k = r(0, n + 2);
    for (int i = 0; i < k; ++i) g.push_back({static_cast<ClockVariables>(r(0, n - 1)), r.pick(ops), r(0, m)});
    return g;
  }

  // m: the largest constant (0: as usual)
  void random(Rec &o, int seed, int n, int large = 0) {
    vt::Rng r(seed * 7919 + 3);
    const int m = large > 0 ? large : n == 3 ? 2 : 3;
    auto some = [&]() { return randomGuard(r, n, m, r.chance(2, 3)); };
    for (int k = 0; k < 6; ++k) {
      auto g = some(), h = some();
      if (k == 0) h = g;
      if (k == 1 && !h.empty()) { g = h; g.pop_back(); }
      if (k == 2) {
        // two pieces which touch at a constant of one clock
        const auto x = static_cast<ClockVariables>(r(0, n - 1));
        const int c = r(1, m);
        const bool left = r.chance(1, 2);
        g = {{x, left ? O::le : O::lt, c}};
        h = {{x, left ? O::gt : O::ge, c}};
        if (c > 1 && r.chance(1, 2)) g.push_back({x, r.pick(std::vector<O>{O::gt, O::ge}), r(0, c - 2)});
        if (r.chance(2, 3)) h.push_back({x, r.pick(std::vector<O>{O::lt, O::le}), r(c + 1, m + 1)});
        if (h.size() > 1 && n > 1 && r.chance(1, 2)) {
          const auto y = static_cast<ClockVariables>(x == 0 ? 1 : 0);
          const Constraint e{y, r.pick(ops), r(1, m)};
          g.push_back(e);
          h.push_back(e);
        }
        if (h.size() > 1) {
          o.add("touching", "\"g\":" + gj(g) + ",\"h\":" + gj(h) + ",\"res\":" + n2s(adjacent(g, h)));
          o.add("touching", "\"g\":" + gj(h) + ",\"h\":" + gj(g) + ",\"res\":" + n2s(adjacent(h, g)));
        }
      }
      guard(o, g, n);
      if (large > 0) one(o, {static_cast<ClockVariables>(r(0, n - 1)), r.pick(ops), r(0, m)}, 2 * m + 5);
      pair(o, g, h);
      pair(o, h, g);
      for (int i = 0; i < 4; ++i) wait(o, r, r.chance(1, 2) ? g : h, n, large > 0 ? 2 * m + 1 : 7);
      for (int i = 0; i < 2; ++i) {
        std::vector<Guard> gs;
        const int cnt = r(1, large > 0 && n < 3 ? 5 : 4);
        while ((int) gs.size() < cnt) {
          auto x = some();
          if (!x.empty()) gs.push_back(x);
        }
        o.add("negate", "\"gs\":" + gsj(gs) + ",\"out\":" + gsj(negate(gs)));
        gs.erase(std::remove_if(gs.begin(), gs.end(), [](const Guard &x) { return !satisfiable(x); }), gs.end());
        if (!gs.empty()) o.add("hull", "\"gs\":" + gsj(gs) + ",\"out\":" + gj(unionHull(gs)));
      }
    }
  }
}

int main(int argc, char **argv) {
  vt::quiet();
  const std::string out = argv[1];
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<vt::Case> cases;
  auto emit = [](std::ostream &o, const std::string &id, int n, const Rec &rec, int top = 0) {
    o << "{\"id\":\"" << id << "\",\"n\":" << n << ",\"top\":" << top << ",\"steps\":" << vt::arr(rec.steps, [](const auto &x) { return x; }) << "}\n";
  };
  // exhaustive: one clock
  const int m = vt::thorough() ? 2 : 1;
  const auto gs = small(m);
  for (std::size_t i = 0; i < gs.size(); ++i) {
    const std::string id = "e" + std::to_string(i);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rec rec;
      vt::Rng r(i);
      if (gs[i].size() == 1) one(rec, gs[i][0]);
      guard(rec, gs[i], 1);
      for (const auto &h: gs) pair(rec, gs[i], h);
      if (!gs[i].empty()) for (const auto &h: gs) if (!h.empty() && h.size() <= 1 + (i % 2)) {
        rec.add("negate", "\"gs\":" + gsj({gs[i], h}) + ",\"out\":" + gsj(negate({gs[i], h})));
      }
      for (int k = 0; k < 8; ++k) wait(rec, r, gs[i], 1);
      emit(o, id, 1, rec);
    }});
  }
  for (int s = from; s < to; ++s) {
    const std::string id = "g" + std::to_string(s);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rec rec;
      const int n = s % 5 == 4 ? 3 : s % 5 == 0 ? 1 : 2;
      random(rec, s, n);
      emit(o, id, n, rec);
    }});
  }
  // larger constants, more clocks
  for (int s = from; s < from + (to - from) / 4; ++s) {
    const std::string id = "w" + std::to_string(s);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rec rec;
      const int n = s % 4 == 3 ? 4 : s % 4 == 2 ? 2 : 1;
      const int m = n == 4 ? 1 : n == 2 ? 6 : s % 8 < 4 ? 12 : 20;
      random(rec, s + 500000, n, m);
      emit(o, id, n, rec, n == 4 ? 5 : 2 * m + 5);
    }});
  }
  vt::runCases(cases, out, jobs);
  return 0;
}
