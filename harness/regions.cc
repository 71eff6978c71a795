// Walks through regional elementary languages (for RegWalk.tla).
//   regions OUT JOBS CPU LEN TESTS        all walks of LEN steps, in both directions
#include "gen.hh"
#include "cells.hh"
#include "backward_regional_elementary_language.hh"
#include "forward_regional_elementary_language.hh"

using namespace vt;
using Fwd = learnta::ForwardRegionalElementaryLanguage;
using Bwd = learnta::BackwardRegionalElementaryLanguage;

namespace {
  // The groups of a fractional order, as printed: "0 <= {x0, }{x1, }" or "0 < {x0, }"
  template<class L>
  std::string order(const L &l) {
    std::ostringstream o;
    o << l;
    std::string s = o.str();
    const auto at = s.rfind(", 0 <");
    if (at == std::string::npos) throw std::runtime_error("no fractional order in " + s);
    s = s.substr(at + 2);
    std::vector<std::string> groups;
    if (s.rfind("0 < ", 0) == 0) groups.push_back("[]");
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i] != '{') continue;
      std::vector<std::string> xs;
      while (s[i] != '}') {
        if (s[i] == 'x') xs.push_back(num(std::stol(s.substr(i + 1))));
        ++i;
      }
      groups.push_back(arr(xs, id));
    }
    return arr(groups, id);
  }

  template<class L>
  std::string lang(const L &l) {
    return "{\"w\":" + num((long) l.getWord().size()) + ",\"z\":" + bounds(l.getTimedCondition()) + ",\"o\":" + order(l) + "}";
  }

  std::string sample(const TimedWord &w, long k) {
    return ",\"k\":" + num(k) + ",\"samp\":" + arr(w.getDurations(), [&](double d) { return num(scaled(d, k)); });
  }

  template<class L>
  std::string words(Rng &r, const L &l, int tests) {
    const auto w = l.sample();
    const long k = wordScale(w);
    std::string s = sample(w, k) + ",\"self\":" + num(l.contains(w) && L::fromTimedWord(w) == l) + ",\"tests\":[";
    for (int t = 0; t < tests; ++t) {
      // a word near the region, or any word
      std::vector<double> d = w.getDurations();
      for (auto &x: d) {
        if (r.chance(1, 4)) x = r(0, 16) / 8.0;
        else x = std::max(0.0, std::floor(x * 8 + r(-1, 2) * r(0, 3)) / 8.0);
      }
      if (r.chance(1, 12)) d.push_back(0.5);
      const TimedWord v{std::string(d.size() - 1, 'a'), d};
      const auto m = L::fromTimedWord(v);
      if (t) s += ",";
      s += "{\"d\":" + arr(d, [](double x) { return num(scaled(x, 8)); }) + ",\"in\":" + num(l.contains(v)) + ",\"l\":" + lang(m) + ",\"eq\":" + num(m == l) + "}";
    }
    return s + "]";
  }

  void walk(std::ostream &o, bool fwd, unsigned bits, int len, int tests) {
    Rng r(bits * 2 + fwd);
    Fwd f;
    Bwd b;
    std::vector<std::string> steps;
    for (int i = 0; i < len; ++i) {
      const bool letter = bits >> i & 1;
      std::string s = std::string("{\"op\":") + (letter ? "\"letter\"" : "\"time\"");
      if (fwd) {
        Fwd g = f;
        if (letter) { f = f.successor('a'); g = f; }
        else { f = f.successor(); g.successorAssign(); }
        s += ",\"l\":" + lang(f) + ",\"again\":" + lang(g) + words(r, f, tests);
        const auto back = f.immediatePrefix();
        const auto pre = f.prefixes();
        s += ",\"back\":" + (back ? "[" + lang(*back) + "]" : std::string("[]")) + ",\"pre\":" + arr(pre, [](const auto &l) { return lang(l); }) +
             ",\"equn\":" + num(f.hasEqualityN());
        std::vector<std::string> sufs;
        for (int q = 0; q < 2; ++q) {
          const int x = r(0, (int) pre.size() - 1);
          const auto suf = f.suffix(pre.at(x));
          const auto w = suf.sample();
          const long k = wordScale(w);
          sufs.push_back("{\"i\":" + num(x + 1) + ",\"l\":" + lang(suf) + sample(w, k) + "}");
        }
        s += ",\"suf\":" + arr(sufs, id);
      } else {
        b = letter ? b.predecessor('a') : b.predecessor();
        s += ",\"l\":" + lang(b) + ",\"again\":" + lang(Bwd(b)) + words(r, b, tests);
        const auto back = letter ? std::nullopt : b.immediateSuffix();
        s += ",\"back\":" + (back ? "[" + lang(*back) + "]" : std::string("[]"));
      }
      steps.push_back(s + "}");
    }
    o << "{\"id\":\"" << (fwd ? "f" : "b") << bits << "\",\"dir\":" << (fwd ? "\"f\"" : "\"b\"") << ",\"steps\":" << arr(steps, id) << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::atoi(argv[2]), cpu = std::atoi(argv[3]), len = std::atoi(argv[4]), tests = std::atoi(argv[5]);
  std::vector<Case> cases;
  for (int fwd = 0; fwd < 2; ++fwd)
    for (unsigned bits = 0; bits < (1u << len); ++bits)
      if (__builtin_popcount(bits) <= 6)
        cases.push_back({std::string(fwd ? "f" : "b") + num(bits), cpu, [=](std::ostream &o) { walk(o, fwd, bits, len, tests); }});
  runCases(cases, argv[1], jobs);
  return 0;
}
