// Runs the real learner on targets and records what the equivalence oracle saw and what came out.
#include "targets.hh"
#include "learner.hh"
#include "timed_automaton_runner.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_memo.hh"
#include "equivalence_oracle_by_test.hh"

using namespace learnta;

namespace {
  // Records every equivalence query and its answer
  struct Recorder : EquivalenceOracle {
    std::unique_ptr<EquivalenceOracle> inner;
    std::vector<std::string> hyps;
    std::vector<TimedWord> cexs;
    explicit Recorder(std::unique_ptr<EquivalenceOracle> inner) : inner(std::move(inner)) {}
    std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
      ++this->eqQueryCount;
      hyps.push_back("{\"det\":" + vt::b2s(h.deterministic()) + ",\"a\":" + vt::taJson(h) + "}");
      auto r = inner->findCounterExample(h);
      if (r) cexs.push_back(*r);
      return r;
    }
  };

  std::vector<TimedWord> testWords(vt::Rng &r, const std::string &sigma) {
    std::vector<TimedWord> ws;
    for (int i = 0; i < 6; ++i) {
      const int n = r(0, 4);
      std::string w;
      std::vector<double> d;
      for (int k = 0; k < n; ++k) { w += sigma[r(0, (int) sigma.size() - 1)]; d.push_back(r(0, 12) * 0.25); }
      d.push_back(r(0, 12) * 0.25);
      ws.emplace_back(w, d);
    }
    return ws;
  }

  void one(std::ostream &o, const std::string &id, const std::string &sigma, const TimedAutomaton &t, int mode, std::uint64_t seed) {
    const std::vector<Alphabet> al(sigma.begin(), sigma.end());
    const auto pristine = vt::taJson(t);
    auto comp = t.complement(al);
    comp.simplifyStrong();
    comp.simplifyWithZones();
    auto chain = std::make_unique<EquivalenceOracleChain>();
    vt::Rng r(seed);
    if (mode >= 1) {
      auto by = std::make_unique<EquivalenceOracleByTest>(t);
      for (const auto &w: testWords(r, sigma)) by->push_back(w);
      chain->push_back(std::move(by));
    }
    chain->push_back(std::make_unique<ComplementTimedAutomataEquivalenceOracle>(t, comp, al));
    std::unique_ptr<EquivalenceOracle> eq = std::move(chain);
    if (mode >= 1) eq = std::make_unique<EquivalenceOracleMemo>(std::move(eq), t);
    auto rec = std::make_unique<Recorder>(std::move(eq));
    auto *rp = rec.get();
    auto mem = std::make_unique<SymbolicMembershipOracle>(std::unique_ptr<SUL>(new TimedAutomatonRunner(t)));
    Learner l{al, std::move(mem), std::move(rec)};
    const auto h = l.run();
    o << "{\"id\":" << vt::quote(id) << ",\"sigma\":" << vt::arr(al, [](char c) { return vt::act(c); })
      << ",\"t\":" << pristine << ",\"h\":" << vt::taJson(h) << ",\"hyps\":[";
    for (std::size_t i = 0; i < rp->hyps.size(); ++i) o << (i ? "," : "") << rp->hyps[i];
    o << "],\"cexs\":" << vt::arr(rp->cexs, [](const auto &w) { return vt::wordJson(w); })
      << ",\"eq\":" << l.numEqQueries() << "}\n";
  }
}

// learn OUT JOBS CPU family:from:to ...
//   families: named, c1s (1 clock), c1m, c1l, c2s (2 clocks), c2m, c2c (copies and constants)
int main(int argc, char **argv) {
  vt::quiet();
  std::vector<vt::Case> cases;
  const int cpu = std::atoi(argv[3]);
  for (int i = 4; i < argc; ++i) {
    std::stringstream ss(argv[i]);
    std::string fam, a, b, m;
    std::getline(ss, fam, ':'); std::getline(ss, a, ':'); std::getline(ss, b, ':'); std::getline(ss, m, ':');
    const int mode = m.empty() ? 0 : std::atoi(m.c_str());
    if (fam == "named") {
      for (const auto &t: vt::namedTargets())
        cases.push_back({"named-" + t.name + "-m" + std::to_string(mode), cpu, [t, mode](std::ostream &o) {
          one(o, "named-" + t.name + "-m" + std::to_string(mode), t.sigma, t.ta, mode, 17);
        }});
      continue;
    }
    for (int s = std::atoi(a.c_str()); s < std::atoi(b.c_str()); ++s) {
      const auto [t, sigma] = vt::familyTarget(fam, s);
      const std::string id = fam + "-" + std::to_string(s) + "-m" + std::to_string(mode);
      cases.push_back({id, cpu, [=, t = t, sigma = sigma](std::ostream &o) { one(o, id, sigma, t, mode, s); }});
    }
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
  return 0;
}
