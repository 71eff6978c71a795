// Histories of operations on zones (for ZoneOps.tla): every step is recorded with the bounds of the zone it produced.
//   zones OUT JOBS CPU FROM TO
#include "gen.hh"
#include "zone.hh"

using namespace vt;
using learnta::Bounds;
using learnta::Zone;

namespace {
  const double INF = std::numeric_limits<double>::max();

  std::string bounds(const Zone &z) {
    std::string r = "[";
    bool first = true;
    const int n = (int) z.getNumOfVar();
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= n; ++j) {
        const auto b = z.value(i, j);
        double c = b.first;
        if (c > 1e6) continue;
        if (c < -1000) c = -1000;
        if (i == j && b >= Bounds{0, true}) continue;
        if (!first) r += ",";
        first = false;
        r += "[" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(scaled(c, 1)) + "," + (b.second ? "1" : "0") + "]";
      }
    return r + "]";
  }

  bool big(const Zone &z, int lim) {
    const int n = (int) z.getNumOfVar();
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= n; ++j)
        if (i != j && z.value(i, j).first < 1e6 && std::fabs(z.value(i, j).first) > lim) return true;
    return false;
  }

  void normal(Zone &z) {
    z.canonize();
    for (int i = 0; i < z.value.cols(); ++i)
      if (z.value(i, i).first > 0) z.value(i, i) = Bounds{0, true};
  }

  Zone universe(int n) {
    Zone z = Zone::top(n + 1);
    for (int i = 0; i < n; ++i) z.tighten(-1, i, Bounds{0, true});
    return z;
  }

  void history(std::ostream &o, std::uint64_t seed) {
    Rng r(seed * 77 + 5);
    const int n = seed % 25 == 7 ? 4 : r.chance(3, 20) ? 1 : r.chance(15, 20) ? 2 : 3;
    const int lim = n == 1 ? r(0, 1) ? 6 : 18 : n == 2 ? 4 : n == 3 ? 2 : 1;
    const int len = n == 4 ? 9 : n == 3 ? 8 : 16;
    std::vector<Zone> reg(3, universe(n));
    std::vector<std::string> steps;
    auto emit = [&](const std::string &op, int dst, int a, int b, const std::string &extra) {
      steps.push_back("{\"op\":" + quote(op) + ",\"dst\":" + std::to_string(dst + 1) + ",\"a\":" + std::to_string(a + 1) + ",\"b\":" +
                      std::to_string(b + 1) + extra + ",\"z\":" + bounds(reg[dst]) + "}");
    };
    auto look = [&](int a, int b) {
      Zone x = reg[a], y = reg[b];
      const bool sat = Zone(x).isSatisfiable();
      std::string e = std::string(",\"sat\":") + (sat ? "1" : "0");
      std::string samp = "[]";
      long k = 1;
      if (sat) {
        Zone s = x;
        const auto v = s.sample();
        for (k = 1; k <= 64; ++k) {
          bool ok = true;
          for (double d: v) ok = ok && fits(d, k);
          if (ok) break;
        }
        samp = arr(v, [&](double d) { return std::to_string(scaled(d, k)); });
      }
      int inc = -1, eq = -1;
      if (sat && Zone(y).isSatisfiable()) {
        normal(x);
        normal(y);
        // beyond the size of the universe of the specification
        if (n >= 3 && (big(x, lim) || big(y, lim))) goto record;
        inc = x.includes(y);
        eq = x.strictEqual(y);
        if ((x == y) != (eq == 1)) eq = 2;
      }
      record:
      steps.push_back("{\"op\":\"look\",\"a\":" + std::to_string(a + 1) + ",\"b\":" + std::to_string(b + 1) + e + ",\"k\":" + std::to_string(k) +
                      ",\"samp\":" + samp + ",\"inc\":" + std::to_string(inc) + ",\"eq\":" + std::to_string(eq) + "}");
      return sat;
    };
    auto fresh = [&](int d) {
      switch (r(0, 3)) {
        case 0:
          reg[d] = Zone::zero(n + 1);
          emit("zero", d, d, d, "");
          break;
        case 1: {
          std::vector<double> v;
          for (int i = 0; i < n; ++i) v.push_back(r(0, lim));
          reg[d] = Zone(v, Bounds{double(lim), true});
          emit("point", d, d, d, ",\"v\":" + arr(v, [](double x) { return std::to_string((int) x); }));
          break;
        }
        default:
          reg[d] = universe(n);
          emit("top", d, d, d, "");
      }
    };
    auto resets = [&](std::string &u) {
      TATransition::Resets rs;
      std::vector<std::string> us;
      for (int i = 0; i < n; ++i) us.push_back("[1," + std::to_string(i + 1) + "]");
      for (int i = 0; i < n; ++i) {
        if (!r.chance(1, 2)) continue;
        if (n > 1 && r.chance(1, 2)) {
          const int j = r(0, n - 1);
          rs.emplace_back(i, static_cast<ClockVariables>(j));
          us[i] = "[1," + std::to_string(j + 1) + "]";
        } else {
          const int v = r.chance(1, 2) ? 0 : r(0, lim);
          rs.emplace_back(i, static_cast<double>(v));
          us[i] = "[0," + std::to_string(v) + "]";
        }
      }
      std::shuffle(rs.begin(), rs.end(), r.g);
      u = arr(us, [](const auto &x) { return x; });
      return rs;
    };
    for (int d = 0; d < 3; ++d) {
      fresh(d);
      if (n >= 3 && d == 1) break;
    }
    if (n >= 3) { reg[2] = reg[1]; emit("canon", 2, 1, 1, ""); }
    while ((int) steps.size() < len) {
      const int d = r(0, 2), a = d, b = r(0, 2);
      switch (r(0, 16)) {
        case 16: { // bounds written down as they are: what is asked next has to close them first
          std::vector<std::string> bs;
          if (n == 4) break;
          const int k = r(1, n + 1);
          for (int m = 0; m < k; ++m) {
            const int x = r(0, n), y = (x + r(1, n)) % (n + 1), c = r(y == 0 ? 0 : -lim, lim), s = r(0, 1);
            reg[d].value(x, y) = std::min(reg[d].value(x, y), Bounds{double(c), s == 1});
            bs.push_back("[" + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(c) + "," + std::to_string(s) + "]");
          }
          emit("tighten", d, d, d, ",\"bounds\":" + arr(bs, [](const auto &x) { return x; }));
          if (!look(d, r(0, 2))) break;
          reg[d].canonize();
          emit("canon", d, d, d, "");
          break;
        }
        case 15: { // as in building a zone automaton: a canonical zone, a guard, and at once what needs a canonical zone
          reg[d].canonize();
          emit("canon", d, d, d, "");
          int k = r(1, 2);
          while (k--) {
            const int x = r(0, n - 1), c = r(0, lim), s = r(0, 1), up = r(0, 1);
            const auto odr = up ? (s ? Constraint::Order::le : Constraint::Order::lt) : (s ? Constraint::Order::ge : Constraint::Order::gt);
            reg[d].tighten(Constraint{static_cast<ClockVariables>(x), odr, c});
            const std::string X = std::to_string(x + 1), C = std::to_string(up ? c : -c), Sx = std::to_string(s);
            emit("guard", d, d, d, ",\"bounds\":[" + (up ? "[" + X + ",0," + C + "," + Sx + "]" : "[0," + X + "," + C + "," + Sx + "]") + "]");
          }
          Zone copy = reg[d];
          if (!copy.isSatisfiable()) break;
          if (r.chance(1, 2)) {
            const int x = r(0, n - 1);
            reg[d].reset(x);
            std::vector<std::string> us;
            for (int i = 0; i < n; ++i) us.push_back(i == x ? "[0,0]" : "[1," + std::to_string(i + 1) + "]");
            emit("reset", d, d, d, ",\"u\":" + arr(us, [](const auto &y) { return y; }));
          }
          reg[d].elapse();
          emit("elapse", d, d, d, "");
          break;
        }
        case 14: { // open cells
          reg[d] = universe(n);
          emit("top", d, d, d, "");
          std::vector<std::string> bs;
          auto bound = [&](int x, int y, int c) {
            reg[d].tighten(static_cast<ClockVariables>(x), static_cast<ClockVariables>(y), Bounds{double(c), false});
            bs.push_back("[" + std::to_string(x + 1) + "," + std::to_string(y + 1) + "," + std::to_string(c) + ",0]");
          };
          std::vector<int> low;
          for (int i = 0; i < n; ++i) {
            low.push_back(r(0, lim - 1));
            bound(i, -1, low[i] + 1);
            bound(-1, i, -low[i]);
            for (int j = 0; j < i; ++j) {
              if (r.chance(1, 3)) continue;
              if (r.chance(1, 2)) bound(i, j, low[i] - low[j]);
              else bound(j, i, low[j] - low[i]);
            }
          }
          emit("tighten", d, d, d, ",\"bounds\":" + arr(bs, [](const auto &x) { return x; }));
          break;
        }
        case 0: case 1: case 2: {
          const int x = r(-1, n - 1);
          int y = r(-1, n - 1);
          if (y == x) y = x == -1 ? 0 : -1;
          const int c = r(-lim, lim), s = r(0, 1);
          reg[d].tighten(static_cast<ClockVariables>(x), static_cast<ClockVariables>(y), Bounds{double(c), s == 1});
          emit("tighten", d, a, b, ",\"bounds\":[[" + std::to_string(x + 1) + "," + std::to_string(y + 1) + "," + std::to_string(c) + "," + std::to_string(s) + "]]");
          break;
        }
        case 3: case 4: {
          std::vector<Constraint> g;
          const int m = r(1, 3);
          std::vector<std::string> bs;
          for (int k = 0; k < m; ++k) {
            const int x = r(0, n - 1), c = r(0, lim), o2 = r(0, 3);
            const auto odr = std::vector<Constraint::Order>{Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge, Constraint::Order::gt}.at(o2);
            g.push_back({static_cast<ClockVariables>(x), odr, c});
            const std::string X = std::to_string(x + 1), C = std::to_string(o2 < 2 ? c : -c), Sx = o2 == 1 || o2 == 2 ? "1" : "0";
            bs.push_back(o2 < 2 ? "[" + X + ",0," + C + "," + Sx + "]" : "[0," + X + "," + C + "," + Sx + "]");
          }
          reg[d].tighten(g);
          emit("guard", d, a, b, ",\"bounds\":" + arr(bs, [](const auto &x) { return x; }));
          break;
        }
        case 5:
          if (n == 4) break;
          if (r.chance(1, 2)) {
            const int e = r(0, 2);
            reg[d] = reg[b] && reg[e];
            emit("and", d, b, e, "");
          } else {
            reg[d] &= reg[b];
            emit("and", d, d, b, "");
          }
          break;
        case 6: case 7: {
          std::string u;
          auto rs = resets(u);
          reg[d].applyResets(rs);
          emit("apply", d, a, b, ",\"u\":" + u);
          break;
        }
        case 8: {
          std::string u;
          auto rs = resets(u);
          reg[d].revertResets(rs);
          // valuations are not negative
          for (int i = 0; i < n; ++i) reg[d].tighten(-1, i, Bounds{0, true});
          emit("revert", d, a, b, ",\"u\":" + u);
          break;
        }
        case 9: {
          const int x = r(0, n - 1);
          reg[d].canonize();
          reg[d].reset(x);
          std::vector<std::string> us;
          for (int i = 0; i < n; ++i) us.push_back(i == x ? "[0,0]" : "[1," + std::to_string(i + 1) + "]");
          emit("reset", d, a, b, ",\"u\":" + arr(us, [](const auto &y) { return y; }));
          break;
        }
        case 10:
          reg[d].canonize();
          reg[d].elapse();
          emit("elapse", d, a, b, "");
          reg[d].canonize();
          emit("canon", d, d, d, "");
          break;
        case 11:
          reg[d].canonize();
          reg[d].reverseElapse();
          emit("relapse", d, a, b, "");
          reg[d].canonize();
          emit("canon", d, d, d, "");
          break;
        case 12: {
          const int x = r(0, n - 1);
          reg[d].canonize();
          reg[d].unconstrain(x);
          reg[d].tighten(-1, x, Bounds{0, true});
          emit("free", d, a, b, ",\"x\":" + std::to_string(x + 1));
          break;
        }
        default: {
          std::vector<double> mc;
          for (int i = 0; i < n; ++i) mc.push_back(r(0, lim));
          reg[d].canonize();
          reg[d].maxConstraints = mc;
          reg[d].extrapolate();
          emit("extra", d, a, b, ",\"mc\":" + arr(mc, [](double x) { return std::to_string((int) x); }));
          reg[d].canonize();
          emit("canon", d, d, d, "");
        }
      }
      const bool sat = look(d, r(0, 2));
      if (!sat || big(reg[d], lim)) fresh(d);
    }
    o << "{\"id\":\"z" << seed << "\",\"n\":" << n << ",\"steps\":" << arr(steps, [](const auto &x) { return x; }) << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const std::string out = argv[1];
  const int jobs = std::atoi(argv[2]), cpu = std::atoi(argv[3]);
  std::vector<Case> cases;
  for (int i = std::atoi(argv[4]); i < std::atoi(argv[5]); ++i)
    cases.push_back({"z" + std::to_string(i), cpu, [i](std::ostream &o) { history(o, i); }});
  runCases(cases, out, jobs);
  return 0;
}
