// Shared pieces of the conformance drivers: JSON projection of the public data
// structures of LearnTA, a seeded generator of deterministic timed automata, and
// small I/O helpers.  Everything here only uses the public interface of the library.
#pragma once

#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/log/core.hpp>
#include <boost/log/expressions.hpp>
#include <boost/log/trivial.hpp>

#include "timed_automaton.hh"
#include "timed_word.hh"

namespace vt {
  using learnta::Alphabet;
  using learnta::ClockVariables;
  using learnta::Constraint;
  using learnta::TAState;
  using learnta::TATransition;
  using learnta::TimedAutomaton;
  using learnta::TimedWord;

  inline void quiet() {
    boost::log::core::get()->set_logging_enabled(false);
  }

  // ---------------------------------------------------------------- random
  struct Rng {
    std::mt19937_64 g;
    explicit Rng(std::uint64_t s) : g(s * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    int operator()(int lo, int hi) { // inclusive
      return lo + static_cast<int>(g() % static_cast<std::uint64_t>(hi - lo + 1));
    }
    bool chance(int num, int den) { return (*this)(1, den) <= num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v.at((*this)(0, (int) v.size() - 1)); }
  };

  // ---------------------------------------------------------------- JSON
  inline std::string quote(const std::string &s) {
    std::string r = "\"";
    for (char c: s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (static_cast<unsigned char>(c) < 32) r += "?";
      else r += c;
    }
    return r + "\"";
  }

  inline std::string act(Alphabet a) { return a == 0 ? "\"\"" : quote(std::string(1, a)); }

  template<class C, class F>
  std::string arr(const C &c, F f) {
    std::string r = "[";
    bool first = true;
    for (const auto &x: c) {
      if (!first) r += ",";
      first = false;
      r += f(x);
    }
    return r + "]";
  }

  inline std::string b2s(bool b) { return b ? "true" : "false"; }

  struct Unrepresentable : std::runtime_error {
    using std::runtime_error::runtime_error;
  };

  // x * scale as an integer; throws if x is not (within 1e-7) a multiple of 1/scale
  inline long scaled(double x, long scale) {
    const double y = x * static_cast<double>(scale);
    const double r = std::round(y);
    if (!std::isfinite(y) || std::fabs(y - r) > 1e-6 * scale || std::fabs(r) > 1e8) {
      std::ostringstream o;
      o << "value " << x << " is not representable at scale " << scale;
      throw Unrepresentable(o.str());
    }
    return static_cast<long>(r);
  }

  inline bool fits(double x, long scale) {
    const double y = x * static_cast<double>(scale);
    return std::isfinite(y) && std::fabs(y - std::round(y)) <= 1e-7;
  }

  // The smallest denominator that makes all the constant resets of TA integral
  inline long denominator(const TimedAutomaton &ta) {
    static const std::vector<long> cand{1, 2, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024};
    std::vector<double> vals;
    for (const auto &s: ta.states)
      for (const auto &[a, ts]: s->next)
        for (const auto &t: ts)
          for (const auto &[x, v]: t.resetVars)
            if (v.index() == 0) vals.push_back(std::get<double>(v));
    for (long d: cand) {
      bool ok = true;
      for (double v: vals) ok = ok && fits(v, d);
      if (ok) return d;
    }
    throw Unrepresentable("no common denominator for the constant resets");
  }

  inline std::string opName(Constraint::Order o) {
    switch (o) {
      case Constraint::Order::lt: return "\"<\"";
      case Constraint::Order::le: return "\"<=\"";
      case Constraint::Order::ge: return "\">=\"";
      case Constraint::Order::gt: return "\">\"";
    }
    return "\"?\"";
  }

  inline std::string guardJson(const std::vector<Constraint> &g) {
    return arr(g, [](const Constraint &c) {
      return "[" + std::to_string(int(c.x)) + "," + opName(c.odr) + "," + std::to_string(c.c) + "]";
    });
  }

  // {"d":denominator,"n":clocks,"init":[..],"acc":[..],"st":[[{a,t,g,r}..]..]}
  // States are numbered from 1; a target which is not a state of the automaton gets 0.
  inline std::string taJson(const TimedAutomaton &ta) {
    const long d = denominator(ta);
    std::unordered_map<const TAState *, int> num;
    for (std::size_t i = 0; i < ta.states.size(); ++i) num[ta.states.at(i).get()] = static_cast<int>(i) + 1;
    auto id = [&](const TAState *s) {
      auto it = num.find(s);
      return it == num.end() ? 0 : it->second;
    };
    std::string r = "{\"d\":" + std::to_string(d) + ",\"n\":" + std::to_string(ta.clockSize());
    r += ",\"mc\":" + arr(ta.maxConstraints, [](int c) { return std::to_string(c); });
    r += ",\"init\":" + arr(ta.initialStates, [&](const auto &s) { return std::to_string(id(s.get())); });
    r += ",\"acc\":" + arr(ta.states, [&](const auto &s) { return b2s(s->isMatch); });
    r += ",\"st\":" + arr(ta.states, [&](const auto &s) {
      std::map<Alphabet, const std::vector<TATransition> *> sorted;
      for (const auto &[a, ts]: s->next) sorted[a] = &ts;
      std::string q = "[";
      bool first = true;
      for (const auto &[a, ts]: sorted) {
        for (const auto &t: *ts) {
          if (!first) q += ",";
          first = false;
          q += "{\"a\":" + act(a) + ",\"t\":" + std::to_string(id(t.target)) + ",\"g\":" + guardJson(t.guard) + ",\"r\":" +
               arr(t.resetVars, [&](const auto &p) {
                 const bool copy = p.second.index() == 1;
                 return "[" + std::to_string(int(p.first)) + "," + (copy ? "1" : "0") + "," +
                        (copy ? std::to_string(int(std::get<ClockVariables>(p.second)))
                              : std::to_string(scaled(std::get<double>(p.second), d))) + "]";
               }) + "}";
        }
      }
      return q + "]";
    });
    return r + "}";
  }

  inline std::string wordJson(const TimedWord &w, long scale) {
    return "{\"w\":" + arr(w.getWord(), [](char c) { return act(c); }) + ",\"d\":" +
           arr(w.getDurations(), [&](double x) { return std::to_string(scaled(x, scale)); }) + "}";
  }

  // The smallest scale that makes all the durations integral
  inline long wordScale(const TimedWord &w) {
    for (long s = 1; s <= 5040; ++s) {
      bool ok = true;
      for (double d: w.getDurations()) ok = ok && fits(d, s);
      if (ok) return s;
    }
    throw Unrepresentable("no scale for the durations of a word");
  }

  inline std::string wordJson(const TimedWord &w) {
    const long s = wordScale(w);
    auto j = wordJson(w, s);
    return "{\"s\":" + std::to_string(s) + "," + j.substr(1);
  }

  // ---------------------------------------------------------------- automata
  struct TAB { // a small builder
    TimedAutomaton ta;
    TAB(std::vector<int> acc, int clocks, int maxC) {
      for (int a: acc) ta.states.push_back(std::make_shared<TAState>(a != 0));
      ta.initialStates = {ta.states.front()};
      ta.maxConstraints.assign(clocks, maxC);
    }
    TAB &t(int s, char a, int target, std::vector<Constraint> g, TATransition::Resets r = {}) {
      ta.states.at(s)->next[a].emplace_back(ta.states.at(target).get(), std::move(r), std::move(g));
      return *this;
    }
  };

  inline TimedAutomaton clone(const TimedAutomaton &ta) {
    TimedAutomaton r;
    std::unordered_map<TAState *, std::shared_ptr<TAState>> m;
    ta.deepCopy(r, m);
    return r;
  }

  struct GenParam {
    int states = 3, clocks = 1, maxC = 2;
    std::string letters = "ab";
    int complete = 60;      // percentage of intervals which get a transition
    int accept = 40;        // percentage of accepting states
    bool copies = false;    // resets of the form x := y
    bool constants = false; // resets to a nonzero integer
    bool halves = false;    // resets to a multiple of 1/2
    int shuffle = 0;        // percentage of transitions which assign a clock to every clock
    int chain = 0;          // percentage of transitions which lead to the next state
    bool conj = true;       // additional conjuncts on the other clocks
  };

  // For each (state, letter): split the range of one clock into intervals and give each
  // interval at most one transition, hence the result is deterministic by construction.
  inline TimedAutomaton genDTA(Rng &r, const GenParam &p) {
    std::vector<int> acc;
    for (int i = 0; i < p.states; ++i) acc.push_back(r.chance(p.accept, 100));
    TAB b(acc, p.clocks, p.maxC);
    for (int s = 0; s < p.states; ++s) {
      for (char a: p.letters) {
        const int x = r(0, p.clocks - 1);
        // cut points: (c, side) meaning "<= c | > c" (side 1) or "< c | >= c" (side 0)
        std::set<std::pair<int, int>> cuts;
        const int k = r(0, 2);
        for (int i = 0; i < k; ++i) cuts.insert({r(0, p.maxC), r(0, 1)});
        cuts.erase({0, 0});
        std::vector<std::vector<Constraint>> cells;
        std::vector<Constraint> low;
        for (auto [c, side]: cuts) {
          auto g = low;
          g.push_back(Constraint{static_cast<ClockVariables>(x), side ? Constraint::Order::le : Constraint::Order::lt, c});
          cells.push_back(g);
          low = {Constraint{static_cast<ClockVariables>(x), side ? Constraint::Order::gt : Constraint::Order::ge, c}};
        }
        cells.push_back(low);
        for (auto g: cells) {
          if (!r.chance(p.complete, 100)) continue;
          if (p.conj && p.clocks > 1 && r.chance(30, 100)) {
            int y = r(0, p.clocks - 1);
            const auto odr = r.pick(std::vector<Constraint::Order>{Constraint::Order::lt, Constraint::Order::le,
                                                                   Constraint::Order::ge, Constraint::Order::gt});
            const int c = r(1, p.maxC);
            if (y != x) g.push_back(Constraint{static_cast<ClockVariables>(y), odr, c});
          }
          TATransition::Resets resets;
          const bool shuffle = p.shuffle > 0 && p.clocks > 1 && r.chance(p.shuffle, 100);
          for (int y = 0; y < p.clocks; ++y) {
            if (shuffle) {
              resets.emplace_back(y, static_cast<ClockVariables>(r(0, p.clocks - 1)));
              continue;
            }
            if (!r.chance(45, 100)) continue;
            if (p.copies && p.clocks > 1 && r.chance(35, 100)) {
              int z = r(0, p.clocks - 1);
              if (z != y) { resets.emplace_back(y, static_cast<ClockVariables>(z)); continue; }
            }
            double v = 0;
            if (p.constants && r.chance(40, 100)) v = r(0, p.maxC);
            if (p.halves && r.chance(30, 100)) v = r(0, 2 * p.maxC) * 0.5;
            resets.emplace_back(y, v);
          }
          if (shuffle && r.chance(1, 2)) std::reverse(resets.begin(), resets.end());
          const bool next = p.chain > 0 && r.chance(p.chain, 100);
          b.t(s, a, next ? (s + 1) % p.states : r(0, p.states - 1), g, resets);
        }
      }
    }
    return b.ta;
  }

  // ---------------------------------------------------------------- process helpers
  inline std::uint64_t seed() {
    const char *s = std::getenv("VERIF_SEED");
    return s ? std::strtoull(s, nullptr, 10) : 1;
  }
  inline bool thorough() {
    const char *s = std::getenv("VERIF_TIER");
    return s && std::string(s) == "thorough";
  }

  // A case runs in a child process of its own (so that a crash, a failed assert or an endless
  // loop costs only that case) and produces JSON lines.
  struct Case {
    std::string id;
    int cpuSeconds;
    std::function<void(std::ostream &)> run;
  };

  inline std::string readAll(const std::string &path) {
    std::ifstream f(path);
    std::stringstream b;
    b << f.rdbuf();
    return b.str();
  }

  // Runs the cases (jobs at a time) and writes to out the lines of each case in order, or
  // {"id":..,"crash":"..."} for a case that did not end normally.
  inline int runCases(const std::vector<Case> &cases, const std::string &out, int jobs) {
    const std::string dir = out + ".d";
    mkdir(dir.c_str(), 0700);
    std::map<pid_t, std::size_t> running;
    std::vector<std::string> crash(cases.size());
    std::size_t next = 0;
    int ended = 0; // abnormally; after a few of them no more cases are started
    auto file = [&](std::size_t i, const char *ext) { return dir + "/" + std::to_string(i) + ext; };
    auto reap = [&]() {
      int st = 0;
      const pid_t pid = waitpid(-1, &st, 0);
      auto it = running.find(pid);
      if (it == running.end()) return;
      const std::size_t i = it->second;
      running.erase(it);
      if (WIFSIGNALED(st)) {
        const int sig = WTERMSIG(st);
        crash[i] = sig == SIGXCPU || sig == SIGKILL ? "timeout" : "signal " + std::to_string(sig);
      } else if (WEXITSTATUS(st) != 0) {
        crash[i] = "exit " + std::to_string(WEXITSTATUS(st));
      }
      if (!crash[i].empty() && ++ended >= 8) next = cases.size();
    };
    while (next < cases.size() || !running.empty()) {
      if (next < cases.size() && (int) running.size() < jobs) {
        const std::size_t i = next++;
        std::cout.flush();
        const pid_t pid = fork();
        if (pid == 0) {
          struct rlimit lim{};
          lim.rlim_cur = cases[i].cpuSeconds;
          lim.rlim_max = cases[i].cpuSeconds + 2;
          setrlimit(RLIMIT_CPU, &lim);
          lim.rlim_cur = lim.rlim_max = 0;
          setrlimit(RLIMIT_CORE, &lim);
          lim.rlim_cur = lim.rlim_max = 3ULL << 30;
          setrlimit(RLIMIT_AS, &lim);
          alarm(static_cast<unsigned>(cases[i].cpuSeconds) * 8 + 60);
          if (!std::freopen(file(i, ".err").c_str(), "w", stderr)) _exit(97);
          int rc = 0;
          {
            std::ofstream o(file(i, ".out"));
            try {
              cases[i].run(o);
            } catch (const std::exception &e) {
              std::cerr << "exception: " << e.what() << std::endl;
              rc = 98;
            } catch (...) {
              std::cerr << "exception of unknown type" << std::endl;
              rc = 98;
            }
          }
          _exit(rc);
        }
        running[pid] = i;
      } else {
        reap();
      }
    }
    std::ofstream o(out);
    int bad = 0;
    for (std::size_t i = 0; i < cases.size(); ++i) {
      if (crash[i].empty()) {
        o << readAll(file(i, ".out"));
      } else {
        ++bad;
        auto err = readAll(file(i, ".err"));
        if (err.size() > 600) err = err.substr(err.size() - 600);
        o << "{\"id\":" << quote(cases[i].id) << ",\"crash\":" << quote(crash[i]) << ",\"err\":" << quote(err) << "}\n";
      }
      std::remove(file(i, ".out").c_str());
      std::remove(file(i, ".err").c_str());
    }
    rmdir(dir.c_str());
    return bad;
  }
}
