// Symbolic membership queries on the real oracle (Cells.tla).
//   symq OUT JOBS CPU FROM TO
#include "gen.hh"
#include "targets.hh"
#include "cells.hh"
#include "backward_regional_elementary_language.hh"
#include "forward_regional_elementary_language.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace vt;
using namespace learnta;
using Fwd = ForwardRegionalElementaryLanguage;
using Bwd = BackwardRegionalElementaryLanguage;

namespace {
  struct Session {
    Rng r;
    std::string sigma;
    SymbolicMembershipOracle oracle;
    std::vector<std::string> cells;
    std::vector<std::pair<ElementaryLanguage, TimedConditionSet>> asked;
    std::size_t different = 0;
    int nontrivial = 0;

    Session(int seed, std::string sigma, const TimedAutomaton &ta) :
            r(seed), sigma(std::move(sigma)), oracle(std::unique_ptr<SUL>(new TimedAutomatonRunner(ta))) {}

    static std::string key(const ElementaryLanguage &e, const TimedConditionSet &s) {
      return cell(e, s);
    }
    void ask(const ElementaryLanguage &e) {
      if (e.getTimedCondition().getUpperBound(0, e.getTimedCondition().size() - 1).first > 9) return;
      const auto s = oracle.query(e);
      cells.push_back(cell(e, s));
      if (!s.empty()) ++nontrivial;
      asked.emplace_back(e, s);
      // earlier queries again
      for (int i = 0; i < 2; ++i) {
        const auto &[f, t] = asked.at(r(0, (int) asked.size() - 1));
        const auto again = oracle.query(f);
        if (key(f, again) != key(f, t)) cells.push_back(cell(f, again));
      }
    }
    Fwd prefix(int steps) {
      Fwd f;
      for (int i = 0; i < steps; ++i) {
        if (f.wordSize() < 3 && r.chance(2, 5)) f = f.successor(r.pick(std::vector<char>(sigma.begin(), sigma.end())));
        else f = f.successor();
      }
      return f;
    }
    Bwd suffix(int steps) {
      Bwd b;
      for (int i = 0; i < steps; ++i) {
        if (b.wordSize() < 2 && r.chance(2, 5)) b = b.predecessor(r.pick(std::vector<char>(sigma.begin(), sigma.end())));
        else b = b.predecessor();
      }
      return b;
    }
    // the hull of some regions of words with the same letters
    ElementaryLanguage convex() {
      const int n = r(1, 4);
      std::string w;
      for (int i = 1; i < n; ++i) w += sigma[r(0, (int) sigma.size() - 1)];
      TimedCondition c;
      for (int k = r(1, 3), first = 1; k > 0; --k, first = 0) {
        std::vector<double> acc(n);
        double sum = 0;
        for (int i = n - 1; i >= 0; --i) {
          sum += r.chance(1, 3) ? r(0, 1) : r(0, n > 3 ? 3 : n > 2 ? 5 : 10) / 4.0;
          acc[i] = sum;
        }
        const TimedCondition x{acc};
        c = first ? x : c.convexHull(x);
      }
      return {w, c};
    }
  };

  void one(std::ostream &o, const std::string &id, const std::string &sigma, const TimedAutomaton &ta, int seed) {
    Session s{seed, sigma, ta};
    std::vector<Fwd> pre;
    std::vector<Bwd> suf;
    for (int i = 0; i < 5; ++i) pre.push_back(s.prefix(s.r(1, 8)));
    for (int i = 0; i < 4; ++i) suf.push_back(s.suffix(s.r(1, 6)));
    for (const auto &p: pre) {
      s.ask(p + Bwd{});
      for (const auto &q: suf) s.ask(p + q);
    }
    for (int i = 0; i < 12; ++i) s.ask(s.convex());
    o << "{\"id\":" << quote(id) << ",\"t\":" << taJson(ta) << ",\"nontrivial\":" << s.nontrivial << ",\"cells\":" << arr(s.cells, [](const auto &x) { return x; }) << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<Case> cases;
  for (const auto &t: namedTargets()) cases.push_back({"named-" + t.name, cpu, [=](std::ostream &o) { one(o, "named-" + t.name, t.sigma, t.ta, 5); }});
  for (int s = from; s < to; ++s) {
    const std::string id = "s" + std::to_string(s);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rng r(s * 31 + 7);
      GenParam p;
      p.states = 2 + s % 3;
      p.clocks = 1 + s % 2;
      p.maxC = 1 + s % 3;
      p.accept = 50;
      p.complete = 85;
      if (s % 5 == 0) p.copies = p.constants = true;
      one(o, id, p.letters, genDTA(r, p), s);
    }});
  }
  runCases(cases, argv[1], jobs);
  return 0;
}
