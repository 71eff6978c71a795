// Equivalence of rows of elementary languages (Renaming.tla), asked outside of any learning run.
//   renaming OUT JOBS CPU FROM TO
#include "gen.hh"
#include "targets.hh"
#include "cells.hh"
#include "equivalence.hh"
#include "forward_regional_elementary_language.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace vt;
using namespace learnta;
using Fwd = ForwardRegionalElementaryLanguage;
using Bwd = BackwardRegionalElementaryLanguage;

namespace {
  template<class L>
  std::string lang(const L &l) {
    return "{\"w\":" + arr(l.getWord(), [](char a) { return act(a); }) + ",\"z\":" + bounds(l.getTimedCondition()) + "}";
  }
  std::string renamingJson(const RenamingRelation &r) {
    return arr(r, [](const auto &p) { return "[" + num((long) p.first + 1) + "," + num((long) p.second + 1) + "]"; });
  }

  void one(std::ostream &o, const std::string &id, const std::string &sigma, const TimedAutomaton &ta, int seed) {
    Rng r(seed);
    SymbolicMembershipOracle oracle{std::unique_ptr<SUL>(new TimedAutomatonRunner(ta))};
    const std::vector<char> letters(sigma.begin(), sigma.end());
    std::vector<Fwd> rows;
    std::vector<Bwd> cols{Bwd{}};
    for (int i = 0; i < 12 && rows.size() < 6; ++i) {
      Fwd f;
      for (int k = r(0, 6); k > 0; --k) f = f.wordSize() < 2 && r.chance(2, 5) ? f.successor(r.pick(letters)) : f.successor();
      if (std::find(rows.begin(), rows.end(), f) == rows.end()) rows.push_back(f);
    }
    for (int i = r(1, 3); i > 0; --i) {
      Bwd b;
      for (int k = r(1, 4); k > 0; --k) b = b.wordSize() < 1 && r.chance(1, 2) ? b.predecessor(r.pick(letters)) : b.predecessor();
      if (std::find(cols.begin(), cols.end(), b) == cols.end()) cols.push_back(b);
    }
    std::vector<std::vector<TimedConditionSet>> cells;
    std::vector<std::vector<TimedCondition>> concat;
    for (const auto &p: rows) {
      cells.emplace_back();
      concat.emplace_back();
      for (const auto &s: cols) {
        cells.back().push_back(oracle.query(p + s));
        concat.back().push_back((p + s).getTimedCondition());
      }
    }
    std::vector<std::string> pairs;
    auto add = [&](std::size_t i, std::size_t j, const RenamingRelation &ren, bool found, bool asked) {
      pairs.push_back("{\"i\":" + num((long) i + 1) + ",\"j\":" + num((long) j + 1) + ",\"ren\":" + renamingJson(ren) + ",\"found\":" + num(found) +
                      ",\"asked\":" + num(asked) + "}");
    };
    int differ = 0;
    for (std::size_t i = 0; i < rows.size(); ++i)
      for (std::size_t j = 0; j < rows.size(); ++j) {
        auto a = findDeterministicEquivalentRenaming(rows[i], cells[i], concat[i], rows[j], cells[j], concat[j], cols);
        add(i, j, a.value_or(RenamingRelation{}), a.has_value(), false);
        // asking twice, and without the prepared concatenations
        const auto b = findDeterministicEquivalentRenaming(rows[i], cells[i], rows[j], cells[j], cols);
        if (a.has_value() != b.has_value() || (a && renamingJson(*a) != renamingJson(*b))) ++differ;
        // a renaming of our choice
        for (int k = 0; k < 3; ++k) {
          RenamingRelation ren;
          for (int m = r(0, 2); m > 0; --m)
            ren.emplace_back(r(0, (int) rows[i].wordSize()), r(0, (int) rows[j].wordSize()));
          std::sort(ren.begin(), ren.end());
          ren.erase(std::unique(ren.begin(), ren.end()), ren.end());
          bool unique = true;
          for (std::size_t x = 0; x < ren.size(); ++x)
            for (std::size_t y = 0; y < x; ++y) unique = unique && ren[x].second != ren[y].second;
          if (!unique) continue;
          const bool e = equivalence(rows[i], cells[i], rows[j], cells[j], cols, ren);
          if (e != equivalence(rows[i], cells[i], concat[i], rows[j], cells[j], concat[j], cols, ren)) ++differ;
          add(i, j, ren, e, true);
        }
      }
    o << "{\"id\":" << quote(id) << ",\"t\":" << taJson(ta) << ",\"rows\":" << arr(rows, [](const auto &x) { return lang(x); }) << ",\"cols\":"
      << arr(cols, [](const auto &x) { return lang(x); }) << ",\"pairs\":" << arr(pairs, vt::id) << ",\"differ\":" << differ << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<Case> cases;
  for (int s = from; s < to; ++s) {
    const std::string id = "s" + std::to_string(s);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rng r(s * 37 + 11);
      GenParam p;
      p.states = 2 + s % 3;
      p.clocks = 1 + s % 2;
      p.maxC = 1 + s % 3;
      p.accept = 50;
      p.complete = 85;
      p.letters = s % 3 ? "a" : "ab";
      one(o, id, p.letters, genDTA(r, p), s);
    }});
  }
  runCases(cases, argv[1], jobs);
  return 0;
}
