// Histories of the oracle objects: cached and uncached membership, test-based, memoising and chained
// equivalence oracles.   oracles OUT JOBS CPU FROM TO
#include "gen.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_memo.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace learnta;

namespace {
  const long K = 4;

  struct Counting : SUL {
    TimedAutomatonRunner inner;
    std::size_t &runs;
    Counting(const TimedAutomaton &t, std::size_t &r) : inner(t), runs(r) {}
    void pre() override { ++runs; inner.pre(); }
    void post() override { inner.post(); }
    bool step(char a) override { return inner.step(a); }
    bool step(double d) override { return inner.step(d); }
    [[nodiscard]] std::size_t count() const override { return inner.count(); }
  };

  using Answer = std::optional<TimedWord>;

  // An equivalence oracle which answers as told and remembers that it was asked
  struct Scripted : EquivalenceOracle {
    const std::function<Answer(const TimedAutomaton &)> f;
    std::vector<Answer> &log;
    Scripted(std::function<Answer(const TimedAutomaton &)> f, std::vector<Answer> &log) : f(std::move(f)), log(log) {}
    [[nodiscard]] Answer findCounterExample(const TimedAutomaton &h) override {
      ++eqQueryCount;
      log.push_back(f(h));
      return log.back();
    }
  };

  std::string ans(const Answer &a) { return a ? vt::wordJson(*a, K) : "[]"; }

  std::size_t number(const std::string &text, const std::string &label) {
    const auto at = text.find(label);
    if (at == std::string::npos) return 999999;
    return std::strtoul(text.c_str() + at + label.size(), nullptr, 10);
  }

  template<class O>
  std::string statistics(const O &o) {
    std::ostringstream s;
    o.printStatistics(s);
    return s.str();
  }

  TimedWord randomWord(vt::Rng &r, const std::string &sigma, int maxC) {
    std::string w;
    std::vector<double> d;
    const int n = r(0, 4);
    for (int i = 0; i <= n; ++i) {
      if (i > 0) w += sigma[r(0, (int) sigma.size() - 1)];
      d.push_back(r(0, maxC * (int) K + 2) * (1.0 / K));
    }
    return {w, d};
  }

  // A word close to the given one
  TimedWord vary(vt::Rng &r, const TimedWord &w, const std::string &sigma) {
    auto l = w.getWord();
    auto d = w.getDurations();
    switch (r(0, 3)) {
      case 0: d.at(r(0, (int) d.size() - 1)) += 1.0 / K; break;
      case 1: if (!l.empty()) l.at(r(0, (int) l.size() - 1)) = sigma[r(0, (int) sigma.size() - 1)]; break;
      case 2: if (d.size() > 1) { const int i = r(0, (int) d.size() - 2); std::swap(d.at(i), d.at(i + 1)); } break;
      default: l += sigma[r(0, (int) sigma.size() - 1)]; d.push_back(0); break;
    }
    return {l, d};
  }

  bool accepts(const TimedAutomaton &t, const TimedWord &w) {
    TimedAutomatonRunner run{t};
    run.pre();
    bool b = run.step(w.getDurations().at(0));
    for (std::size_t i = 0; i < w.wordSize(); ++i) {
      run.step(w.getWord().at(i));
      b = run.step(w.getDurations().at(i + 1));
    }
    run.post();
    return b;
  }

  // The word with quarters as durations in which every stretch of time compares to the integers as it does in w
  // (for at most three delays with distinct fractional parts)
  TimedWord onGrid(const TimedWord &w) {
    const auto d = w.getDurations();
    std::vector<double> at{0}, on;
    for (double x: d) at.push_back(at.back() + x);
    auto frac = [](double x) { return x - std::floor(x); };
    for (double x: at) {
      std::set<double> below;
      for (double y: at) if (frac(y) < frac(x)) below.insert(frac(y));
      on.push_back(std::floor(x) + (double) below.size() / K);
    }
    std::vector<double> e;
    for (std::size_t i = 0; i < d.size(); ++i) e.push_back(on.at(i + 1) - on.at(i));
    return {w.getWord(), e};
  }

  void one(int s, std::ostream &o) {
    vt::Rng r(s * 9176 + 3);
    vt::GenParam p;
    p.states = r(2, 4);
    p.accept = 50;
    p.complete = r(60, 95);
    p.clocks = r(1, 2);
    p.maxC = r(1, 2);
    p.letters = r.chance(1, 4) ? "a" : "ab";
    const auto t = vt::genDTA(r, p);
    const bool deepHistory = s % 4 == 3; // many words are remembered
    std::vector<TimedAutomaton> hyps;
    for (int i = 0; i < (deepHistory ? 10 : 4); ++i) hyps.push_back(vt::mutate(r, i > 1 ? hyps.back() : t, p.maxC));
    hyps.push_back(vt::disguise(r, t, p.letters, p.maxC, false));
    std::vector<TimedWord> pool;
    for (int i = 0; i < (deepHistory ? 24 : 8); ++i) {
      pool.push_back(randomWord(r, p.letters, p.maxC));
      pool.push_back(vary(r, pool.back(), p.letters));
    }
    std::vector<std::string> ev;
    auto event = [&](const std::string &x) { ev.push_back("{" + x + "}"); };
    // membership
    std::size_t cachedRuns = 0, plainRuns = 0, deepRuns = 0;
    MembershipOracleCache cached{std::make_unique<SULMembershipOracle>(std::make_unique<Counting>(t, cachedRuns))};
    SULMembershipOracle plain{std::make_unique<Counting>(t, plainRuns)};
    SymbolicMembershipOracle deep{std::make_unique<Counting>(t, deepRuns)};
    for (int i = 0; i < 40; ++i) {
      const auto &w = r.pick(pool);
      if (r.chance(2, 3)) {
        const bool b = cached.answerQuery(w);
        if (deep.answerQuery(w) != b) throw std::logic_error("SymbolicMembershipOracle::answerQuery differs from MembershipOracleCache::answerQuery");
        if (deepRuns != cachedRuns || deep.count() != cached.count()) throw std::logic_error("the counters of SymbolicMembershipOracle and MembershipOracleCache differ");
        event("\"e\":\"m\",\"w\":" + vt::wordJson(w, K) + ",\"res\":" + vt::b2s(b) + ",\"real\":" + std::to_string(cachedRuns) + ",\"count\":" +
              std::to_string(cached.count()) + ",\"total\":" + std::to_string(number(statistics(cached), "Number of membership queries: ")));
        if (number(statistics(cached), "Number of membership queries (with cache): ") != cachedRuns) throw std::logic_error("printed number of cached queries");
      } else {
        const bool b = plain.answerQuery(w);
        event("\"e\":\"s\",\"w\":" + vt::wordJson(w, K) + ",\"res\":" + vt::b2s(b) + ",\"real\":" + std::to_string(plainRuns) + ",\"count\":" +
              std::to_string(plain.count()));
      }
    }
    // tests
    EquivalenceOracleByTest tests{t};
    for (int i = 0; i < (deepHistory ? 60 : 25); ++i) {
      if (deepHistory ? i < 45 : r.chance(1, 2)) {
        const auto &w = r.pick(pool);
        tests.push_back(w);
        event("\"e\":\"put\",\"w\":" + vt::wordJson(w, K));
      }
      const int h = r(0, (int) hyps.size() - 1);
      event("\"e\":\"t\",\"h\":" + std::to_string(h + 1) + ",\"ans\":" + ans(tests.findCounterExample(hyps.at(h))));
    }
    // memo around an oracle which answers with a counterexample from the pool (if there is one)
    auto search = [&](const TimedAutomaton &h) -> Answer {
      std::vector<TimedWord> found;
      for (const auto &w: pool) if (accepts(t, w) != accepts(h, w)) found.push_back(w);
      if (found.empty()) return std::nullopt;
      return r.pick(found);
    };
    {
      std::vector<Answer> log;
      EquivalenceOracleMemo memo{std::make_unique<Scripted>(search, log), t};
      for (int i = 0; i < (deepHistory ? 50 : 14); ++i) {
        const int h = r(0, (int) hyps.size() - 1);
        const auto before = log.size();
        const auto a = memo.findCounterExample(hyps.at(h));
        const bool called = log.size() > before;
        if (log.size() > before + 1) throw std::logic_error("the wrapped oracle was asked more than once");
        const auto st = statistics(memo);
        if (number(st, "Number of equivalence queries: ") != memo.numEqQueries()) throw std::logic_error("printed number of equivalence queries");
        event("\"e\":\"eq\",\"h\":" + std::to_string(h + 1) + ",\"called\":" + vt::b2s(called) + ",\"inner\":" + (called ? ans(log.back()) : "[]") +
              ",\"ans\":" + ans(a) + ",\"total\":" + std::to_string(memo.numEqQueries()) + ",\"cached\":" +
              std::to_string(number(st, "Number of equivalence queries (with cache): ")));
      }
    }
    // chain
    {
      std::vector<Answer> log;
      EquivalenceOracleChain chain;
      const int members = r(0, 3);
      std::vector<int> mood(members);
      for (int m = 0; m < members; ++m) {
        chain.push_back(std::make_unique<Scripted>([&, m](const TimedAutomaton &h) -> Answer {
          if (mood[m] == 0) return std::nullopt;
          if (mood[m] == 1) return pool.at(m);
          return search(h);
        }, log));
      }
      for (int i = 0; i < 10; ++i) {
        for (auto &m: mood) m = r.chance(1, 2) ? 0 : r(1, 2);
        log.clear();
        const auto a = chain.findCounterExample(hyps.at(r(0, (int) hyps.size() - 1)));
        event("\"e\":\"ch\",\"members\":" + std::to_string(members) + ",\"inner\":" + vt::arr(log, ans) + ",\"ans\":" + ans(a) + ",\"total\":" +
              std::to_string(chain.numEqQueries()));
      }
    }
    // random tests: at most two letters, at most maxC + 1 time units before each
    {
      const int tries = r.chance(1, 4) ? 1 : 60, length = r(0, 2), time = p.maxC + 1;
      EquivalenceOracleByRandomTest random{std::vector<Alphabet>{p.letters.begin(), p.letters.end()}, t, tries, length, time};
      for (int i = 0; i < 12; ++i) {
        const int h = r(0, (int) hyps.size() - 1);
        auto a = random.findCounterExample(hyps.at(h));
        if (a) a = onGrid(*a);
        event("\"e\":\"rt\",\"h\":" + std::to_string(h + 1) + ",\"ans\":" + ans(a) + ",\"length\":" + std::to_string(length) + ",\"time\":" +
              std::to_string(time * K) + ",\"total\":" + std::to_string(random.numEqQueries()));
      }
    }
    o << "{\"id\":\"o" << s << "\",\"K\":" << K << ",\"sigma\":" << vt::arr(p.letters, [](char c) { return vt::act(c); }) << ",\"auts\":[" << vt::taJson(t);
    for (const auto &h: hyps) o << "," << vt::taJson(h);
    o << "],\"ev\":" << vt::arr(ev, [](const auto &x) { return x; }) << "}\n";
  }
}

int main(int argc, char **argv) {
  vt::quiet();
  std::vector<vt::Case> cases;
  for (int s = std::atoi(argv[4]); s < std::atoi(argv[5]); ++s)
    cases.push_back({"o" + std::to_string(s), std::atoi(argv[3]), [s](std::ostream &o) { one(s, o); }});
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}
