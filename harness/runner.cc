// The system under learning and the membership oracles on histories and timed words.
//   runner OUT JOBS CPU auts FROM TO          dump the automata
//   runner OUT JOBS CPU hist FROM TO          run random histories, record every answer
//   runner OUT JOBS CPU wide FROM TO          the same, of larger automata, with longer runs
//   runner OUT JOBS CPU replay TESTS          replay generated tests ("seed K event event ..." per line)
#include "gen.hh"
#include "symbolic_membership_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace learnta;

namespace {
  struct Model { TimedAutomaton ta; std::string sigma; int maxC; long K; bool eps; };

  // Turns some states into ones left by urgent unobservable transitions (with closed guards, no cycles:
  // an unobservable transition leads to a state without one)
  void addEps(vt::Rng &r, TimedAutomaton &ta, int maxC) {
    const int n = (int) ta.clockSize();
    std::vector<TAState *> calm;
    std::vector<TAState *> urgent;
    for (auto &s: ta.states) (r.chance(1, 2) ? urgent : calm).push_back(s.get());
    if (calm.empty()) return;
    for (auto *s: urgent) {
      const int k = r(1, 2);
      const int x = r(0, n - 1);
      int low = r(0, 1);
      for (int i = 0; i < k; ++i) {
        const auto v = static_cast<ClockVariables>(x);
        std::vector<Constraint> g;
        if (low > 0) g.push_back({v, Constraint::Order::ge, low});
        if (i + 1 < k || r.chance(1, 2)) {
          if (r.chance(1, 3)) g.push_back({v, Constraint::Order::lt, low + 1});
          else g.push_back({v, Constraint::Order::le, low + r(0, 1)});
        }
        if (g.empty() && r.chance(1, 2)) g.push_back({v, Constraint::Order::ge, 0});
        const int high = !g.empty() && g.back().isUpperBound() ? g.back().c : maxC;
        // the guards are disjoint already; further conjuncts restrict them
        if (n > 1 && r.chance(1, 2)) {
          const auto y = static_cast<ClockVariables>(x == 0 ? 1 : 0);
          g.push_back({y, r.pick(std::vector<Constraint::Order>{Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge}), r(1, 2)});
          if (r.chance(1, 2)) std::reverse(g.begin(), g.end());
        }
        TATransition::Resets rs;
        for (int y = 0; y < n; ++y) if (r.chance(1, 2)) rs.emplace_back(y, 0.0);
        s->next[UNOBSERVABLE].emplace_back(calm.at(r(0, (int) calm.size() - 1)), rs, g);
        low = high + 1;
      }
      if (r.chance(1, 2)) std::reverse(s->next[UNOBSERVABLE].begin(), s->next[UNOBSERVABLE].end());
    }
  }

  Model model(int s) {
    vt::Rng r(s * 65537 + 11);
    vt::GenParam p;
    p.states = r(2, 4);
    p.accept = r(30, 70);
    p.complete = r(60, 100);
    p.letters = r.chance(1, 4) ? "a" : "ab";
    long K = 2;
    bool eps = false;
    switch (s % 8) {
      case 0: p.maxC = r(1, 4); break;
      case 1: p.clocks = 2; p.maxC = r(1, 2); K = 4; break;
      case 2: p.clocks = 2; p.maxC = 2; p.copies = p.constants = true; K = 4; break;
      case 3: p.clocks = 3; p.maxC = 1; p.copies = true; p.states = 2; K = 4; break;
      case 4: p.clocks = r(1, 2); p.maxC = 2; p.halves = p.copies = true; K = 4; break;
      default: p.clocks = s % 8 == 5 ? 1 : 2; p.maxC = 2; eps = true; K = 2; break;
    }
    if (p.copies) p.shuffle = 40;
    auto t = vt::genDTA(r, p);
    if (eps) addEps(r, t, p.maxC);
    return {t, p.letters, p.maxC, K, eps};
  }

  // Larger constants, more letters and states, or more clocks
  Model wide(int s) {
    vt::Rng r(s * 92821 + 7);
    vt::GenParam p;
    p.states = r(3, 8);
    p.accept = r(30, 70);
    p.complete = r(85, 100);
    p.letters = "abc";
    long K = 2;
    bool eps = false;
    switch (s % 6) {
      case 0: p.maxC = r(5, 20); K = 8; break;
      case 1: p.clocks = 2; p.maxC = r(3, 9); p.copies = true; K = 4; break;
      case 2: p.clocks = 3; p.maxC = r(2, 4); p.copies = p.constants = true; K = 4; break;
      case 3: p.clocks = 4; p.maxC = 2; p.states = r(2, 3); p.copies = true; K = 8; break;
      case 4: p.clocks = 2; p.maxC = r(3, 6); p.halves = p.constants = p.copies = true; K = 16; break;
      default: p.clocks = r(1, 3); p.maxC = r(3, 6); eps = true; K = 2; break;
    }
    if (p.copies) p.shuffle = 40;
    auto t = vt::genDTA(r, p);
    if (eps) addEps(r, t, p.maxC);
    return {t, p.letters, p.maxC, K, eps};
  }

  std::string id(int s) { return "r" + std::to_string(s); }

  // A system under learning which counts and delegates
  struct Counting : SUL {
    std::unique_ptr<SUL> inner;
    std::size_t &runs;
    Counting(std::unique_ptr<SUL> i, std::size_t &r) : inner(std::move(i)), runs(r) {}
    void pre() override { ++runs; inner->pre(); }
    void post() override { inner->post(); }
    bool step(char a) override { return inner->step(a); }
    bool step(double d) override { return inner->step(d); }
    [[nodiscard]] std::size_t count() const override { return inner->count(); }
  };

  void history(int s, std::ostream &o, bool far) {
    const auto m = far ? wide(s) : model(s);
    const auto j = vt::taJson(m.ta);
    vt::Rng r(s * 31 + 5);
    TimedAutomatonRunner run{m.ta};
    std::string ev;
    const int runs = far ? r(2, 14) : 8;
    for (int k = 0; k < runs; ++k) {
      run.pre();
      ev += std::string(ev.empty() ? "" : ",") + "{\"e\":\"pre\",\"v\":0,\"a\":\"\",\"res\":[]}";
      const int n = far ? (r.chance(1, 4) ? r(20, 70) : r(0, 15)) : r(0, 9);
      for (int i = 0; i < n; ++i) {
        if (r.chance(1, 2)) {
          const long d = far && r.chance(1, 4) ? r(0, m.maxC + 1) * m.K : r.chance(1, 3) ? r(0, 2) * m.K : r(0, (int) m.K * 2);
          const bool b = run.step(static_cast<double>(d) / static_cast<double>(m.K));
          ev += ",{\"e\":\"d\",\"v\":" + std::to_string(d) + ",\"a\":\"\",\"res\":[" + (b ? "1" : "0") + "]}";
        } else {
          const char a = m.sigma[r(0, (int) m.sigma.size() - 1)];
          const bool b = run.step(a);
          ev += std::string(",{\"e\":\"a\",\"v\":0,\"a\":\"") + a + "\",\"res\":[" + (b ? "1" : "0") + "]}";
        }
      }
      if (r.chance(2, 3)) run.post();
    }
    o << "{\"id\":\"" << (far ? "w" : "") << id(s) << "\",\"sigma\":" << vt::arr(m.sigma, [](char c) { return vt::act(c); }) << ",\"K\":" << m.K
      << ",\"t\":" << j << ",\"ev\":[" << ev << "],\"count\":" << run.count() << ",\"runs\":" << runs << "}\n";
  }

  struct Test { std::vector<std::string> ev; };

  void replay(int s, const std::vector<Test> &tests, std::ostream &o) {
    const auto m = model(s);
    TimedAutomatonRunner run{m.ta};
    SymbolicMembershipOracle oracle{std::make_unique<TimedAutomatonRunner>(m.ta)};
    SULMembershipOracle plain{std::make_unique<TimedAutomatonRunner>(m.ta)};
    std::vector<std::size_t> order(tests.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    vt::Rng r(s);
    std::shuffle(order.begin(), order.end(), r.g);
    std::size_t steps = 0, bad = 0;
    std::string first;
    for (std::size_t i: order) {
      const auto &t = tests[i];
      run.pre();
      std::string word;
      std::vector<double> durations{0};
      bool expect = false;
      std::string got;
      bool ok = true;
      for (const auto &e: t.ev) {
        expect = e.back() == '+';
        bool b;
        if (e[0] == 'd') {
          const double d = std::atof(e.c_str() + 1) / static_cast<double>(m.K);
          b = run.step(d);
          durations.back() += d;
        } else {
          b = run.step(e[1]);
          word += e[1];
          durations.push_back(0);
        }
        ++steps;
        got += b ? '+' : '-';
        ok = ok && b == expect;
      }
      run.post();
      const TimedWord w{word, durations};
      const bool viaCache = oracle.answerQuery(w), viaPlain = plain.answerQuery(w), again = oracle.answerQuery(w);
      if (viaCache != expect || viaPlain != expect || again != expect) {
        ok = false;
        got += std::string(" oracle ") + (viaPlain ? '+' : '-') + " cached " + (viaCache ? '+' : '-') + (again ? '+' : '-');
      }
      if (!ok) {
        ++bad;
        if (first.empty()) {
          for (const auto &e: t.ev) first += e + " ";
          first += "answered " + got;
        }
      }
    }
    o << "{\"id\":\"" << id(s) << "\",\"tests\":" << tests.size() << ",\"steps\":" << steps << ",\"bad\":" << bad << ",\"first\":" << vt::quote(first)
      << ",\"t\":" << vt::taJson(m.ta) << "}\n";
  }
}

int main(int argc, char **argv) {
  vt::quiet();
  const std::string kind = argv[4];
  const int cpu = std::atoi(argv[3]);
  std::vector<vt::Case> cases;
  std::map<int, std::vector<Test>> tests;
  if (kind == "replay") {
    std::ifstream f(argv[5]);
    for (std::string l; std::getline(f, l);) {
      std::istringstream ss(l);
      int s;
      ss >> s;
      Test t;
      for (std::string e; ss >> e;) t.ev.push_back(e);
      tests[s].push_back(t);
    }
    for (const auto &[s, ts]: tests)
      cases.push_back({id(s), cpu, [s = s, &ts = ts](std::ostream &o) { replay(s, ts, o); }});
  } else {
    for (int s = std::atoi(argv[5]); s < std::atoi(argv[6]); ++s) {
      if (kind == "auts")
        cases.push_back({id(s), cpu, [s](std::ostream &o) {
          const auto m = model(s);
          o << "{\"id\":\"" << id(s) << "\",\"seed\":" << s << ",\"sigma\":" << vt::arr(m.sigma, [](char c) { return vt::act(c); }) << ",\"K\":" << m.K
            << ",\"maxC\":" << m.maxC << ",\"eps\":" << vt::b2s(m.eps) << ",\"t\":" << vt::taJson(m.ta) << "}\n";
        }});
      else
        cases.push_back({id(s), cpu, [s, far = kind == "wide"](std::ostream &o) { history(s, o, far); }});
    }
  }
  vt::runCases(cases, argv[1], std::atoi(argv[2]));
}
