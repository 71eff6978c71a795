// Recording of symbolic membership (Cells.tla).
#pragma once
#include "vt.hh"
#include "elementary_language.hh"
#include "timed_condition_set.hh"

namespace vt {
  inline std::string id(const std::string &s) { return s; }
  inline std::string num(long x) { return std::to_string(x); }
  // [i, j, c, s]: x_i - x_j is at most c (strictly if s = 0), where x_i = T_{i,N} and x_0 = 0
  inline std::string bound(int i, int j, const learnta::Bounds &b) {
    return "[" + num(i) + "," + num(j) + "," + num(scaled(b.first, 1)) + "," + (b.second ? "1" : "0") + "]";
  }

  inline std::string bounds(const learnta::TimedCondition &c) {
    std::vector<std::string> r;
    const int n = (int) c.size();
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) {
        const int y = j == n - 1 ? 0 : j + 2;
        r.push_back(bound(i + 1, y, c.getUpperBound(i, j)));
        r.push_back(bound(y, i + 1, c.getLowerBound(i, j)));
      }
    return arr(r, id);
  }

  // [i, j, c, s, sense]: the sum of the durations i .. j is at most / at least c
  inline std::string sums(const learnta::TimedCondition &c) {
    std::vector<std::string> r;
    const int n = (int) c.size();
    for (int i = 0; i < n; ++i)
      for (int j = i; j < n; ++j) {
        const auto u = c.getUpperBound(i, j), l = c.getLowerBound(i, j);
        auto put = [&](long b, bool closed, int sense) {
          r.push_back("[" + std::to_string(i + 1) + "," + std::to_string(j + 1) + "," + std::to_string(b) + "," + (closed ? "1" : "0") + "," +
                      std::to_string(sense) + "]");
        };
        if (u.first < 1e6) put(scaled(u.first, 1), u.second, 1);
        if (l.first < 0 || !l.second) put(-scaled(l.first, 1), l.second, -1);
      }
    return arr(r, [](const auto &x) { return x; });
  }

  inline std::string cell(const learnta::ElementaryLanguage &e, const learnta::TimedConditionSet &res) {
    const auto &c = e.getTimedCondition();
    const int n = (int) c.size();
    std::vector<std::string> top;
    for (int i = 0; i < n; ++i) {
      double m = c.getUpperBound(i, i).first;
      for (const auto &x: res.getConditions()) m = std::max(m, x.getUpperBound(i, i).first);
      if (m > 1e6) throw Unrepresentable("unbounded condition in a cell");
      top.push_back(std::to_string(scaled(m, 1)));
    }
    return "{\"w\":" + arr(e.getWord(), [](char a) { return act(a); }) + ",\"K\":" + std::to_string(n + 1) + ",\"lam\":" + sums(c) +
           ",\"res\":" + arr(res.getConditions(), [](const auto &x) { return sums(x); }) + ",\"top\":" +
           arr(top, [](const auto &x) { return x; }) + "}";
  }
}
