// Runs the real learner and records its observation table (Table.tla, Cells.tla, Renaming.tla,
// Morphisms.tla).
//   table OUT JOBS CPU PARTS family:from:to:x ...
// PARTS: l a run of Learner (a step per hypothesis), s a run with a step per stage, c cells,
//        b like l with long counterexamples, q equivalence of rows per hypothesis, m words mapped to representatives, x analyses of counterexamples
#include "targets.hh"
#include "cells.hh"
#include "learner.hh"
#include "counterexample_analyzer.hh"
#include "equivalance_oracle_chain.hh"
#include "timed_automata_equivalence_oracle.hh"
#include "timed_automaton_runner.hh"

using namespace vt;
using namespace learnta;

namespace {
  template<class T>
  struct Dict {
    std::map<std::string, int> ids;
    std::vector<std::string> items;
    int operator()(const std::string &s) {
      auto [it, fresh] = ids.emplace(s, (int) items.size() + 1);
      if (fresh) items.push_back(s);
      return it->second;
    }
    [[nodiscard]] std::string json() const { return arr(items, [](const auto &x) { return x; }); }
  };

  template<class L>
  std::string lang(const L &l) {
    return "{\"w\":" + arr(l.getWord(), [](char a) { return act(a); }) + ",\"z\":" + bounds(l.getTimedCondition()) + "}";
  }
  std::string renamingJson(const RenamingRelation &r) {
    return arr(r, [](const auto &p) { return "[" + num((long) p.first + 1) + "," + num((long) p.second + 1) + "]"; });
  }

  struct Trace {
    std::string parts, sigma;
    Rng r, rb; // rb: for the long counterexamples only
    TimedAutomaton target;
    std::shared_ptr<SymbolicMembershipOracle> mem;
    Dict<int> rows, cols, cells;
    std::vector<std::string> steps, hyps, chains, cexs;
    int skipped = 0;

    Trace(std::string parts, std::string sigma, const TimedAutomaton &t, int seed) :
            parts(std::move(parts)), sigma(std::move(sigma)), r(seed), rb(seed + 77), target(t),
            mem(std::make_shared<SymbolicMembershipOracle>(std::unique_ptr<SUL>(new TimedAutomatonRunner(t)))) {}
    [[nodiscard]] bool has(char c) const { return parts.find(c) != std::string::npos; }

    void step(const std::string &op, const ObservationTable &t) {
      const auto v = t.view();
      const std::size_t n = v.prefixes.size();
      std::string s = "{\"op\":" + quote(op) + ",\"rows\":" + arr(v.prefixes, [&](const auto &p) { return num(rows(lang(p))); });
      s += ",\"cols\":" + arr(v.suffixes, [&](const auto &p) { return num(cols(lang(p))); });
      std::vector<int> p(n, 0), cont(n, 0);
      for (std::size_t i = 0; i < n; ++i) {
        p[i] = v.pIndices.count(i) ? 1 : 0;
        auto it = v.continuousSuccessors.find(i);
        if (it != v.continuousSuccessors.end()) cont[i] = (int) it->second + 1;
      }
      auto ints = [](const std::vector<int> &x) { return arr(x, [](int i) { return num(i); }); };
      s += ",\"p\":" + ints(p) + ",\"cont\":" + ints(cont) + ",\"disc\":";
      s += arr(sigma, [&](char a) {
        std::vector<int> d(n, 0);
        for (std::size_t i = 0; i < n; ++i) {
          auto it = v.discreteSuccessors.find(std::make_pair(i, a));
          if (it != v.discreteSuccessors.end()) d[i] = (int) it->second + 1;
        }
        return ints(d);
      });
      std::vector<std::string> m;
      bool aligned = v.table.size() == n;
      for (std::size_t i = 0; i < v.table.size(); ++i) {
        std::vector<int> x;
        for (std::size_t j = 0; j < v.table[i].size(); ++j) {
          if (i < n && j < v.suffixes.size()) {
            const auto e = v.prefixes[i] + v.suffixes[j];
            aligned = aligned && v.concatenations.at(i).at(j) == e.getTimedCondition();
            x.push_back(cells(cell(e, v.table[i][j])));
          } else aligned = false;
        }
        m.push_back(ints(x));
      }
      s += ",\"cells\":" + arr(m, id) + ",\"aligned\":" + num(aligned) + "}";
      steps.push_back(s);
    }

    // the row of ext(P) and the row of P it is identified with when a hypothesis is built
    static std::optional<std::pair<std::size_t, RenamingRelation>> used(const ObservationTable::View &v, std::size_t i) {
      auto it = v.closedRelation.find(i);
      if (it == v.closedRelation.end()) return std::nullopt;
      for (const auto &[j, ren]: it->second)
        if (v.pIndices.count(j)) return std::make_pair(j, ren);
      return std::nullopt;
    }

    void hypothesis(ObservationTable &t, const TimedAutomaton &h) {
      const auto v = t.view();
      const std::size_t n = v.prefixes.size();
      std::string s = "{\"step\":" + num((long) steps.size()) + ",\"a\":" + taJson(h) + ",\"used\":[";
      bool first = true;
      for (std::size_t i = 0; i < n; ++i) {
        if (v.pIndices.count(i)) continue;
        std::vector<std::string> all;
        auto it = v.closedRelation.find(i);
        if (it != v.closedRelation.end())
          for (const auto &[j, ren]: it->second)
            if (v.pIndices.count(j)) all.push_back("{\"j\":" + num((long) j + 1) + ",\"r\":" + renamingJson(ren) + "}");
        s += (first ? "" : ",") + ("{\"i\":" + num((long) i + 1)) + ",\"to\":" + arr(all, id) + "}";
        first = false;
      }
      s += "]";
      if (has('q')) {
        auto eq = [&](std::size_t i, std::size_t j) {
          return findDeterministicEquivalentRenaming(v.prefixes[i], v.table[i], v.concatenations[i], v.prefixes[j], v.table[j],
                                                     v.concatenations[j], v.suffixes).has_value();
        };
        // would i and j still be equivalent with one more column?
        auto eqWith = [&](std::size_t i, std::size_t j, const learnta::BackwardRegionalElementaryLanguage &col) {
          auto lr = v.table[i], rr = v.table[j];
          auto lc = v.concatenations[i], rc = v.concatenations[j];
          auto cs = v.suffixes;
          cs.emplace_back(col);
          const auto l = v.prefixes[i] + col, q = v.prefixes[j] + col;
          lr.emplace_back(mem->query(l));
          lc.emplace_back(l.getTimedCondition());
          rr.emplace_back(mem->query(q));
          rc.emplace_back(q.getTimedCondition());
          return findDeterministicEquivalentRenaming(v.prefixes[i], lr, lc, v.prefixes[j], rr, rc, cs).has_value();
        };
        std::vector<std::string> closed, cons, sat;
        for (std::size_t i = 0; i < n; ++i) {
          if (!v.pIndices.count(i)) {
            long to = 0;
            for (std::size_t j = 0; j < n && !to; ++j)
              if (v.pIndices.count(j) && eq(i, j)) to = (long) j + 1;
            closed.push_back("[" + num((long) i + 1) + "," + num(to) + "]");
            continue;
          }
          for (std::size_t j = 0; j < i; ++j) {
            if (!v.pIndices.count(j) || !eq(i, j)) continue;
            for (char a: sigma)
              cons.push_back("[" + num((long) i + 1) + "," + num((long) j + 1) + "," +
                             num(eq(v.discreteSuccessors.at({i, a}), v.discreteSuccessors.at({j, a}))) + "]");
            // after some time: refutable by the time before a column
            if (!eq(v.continuousSuccessors.at(i), v.continuousSuccessors.at(j))) {
              bool ok = true;
              for (const auto &col: v.suffixes) ok = ok && eqWith(i, j, col.predecessor());
              cons.push_back("[" + num((long) i + 1) + "," + num((long) j + 1) + "," + num(ok) + "]");
            }
          }
          const auto c = v.continuousSuccessors.at(i);
          sat.push_back("[" + num((long) i + 1) + "," + num((long) c + 1) + "," + num((long) v.pIndices.count(c)) + "," +
                        num(eq(c, i)) + "]");
        }
        s += ",\"closed\":" + arr(closed, id) + ",\"cons\":" + arr(cons, id) + ",\"sat\":" + arr(sat, id);
      }
      hyps.push_back(s + "}");
    }

    TimedWord anyWord() {
      const int n = r.chance(1, 4) ? r(4, 7) : r(0, 3);
      std::string w;
      std::vector<double> d;
      for (int k = 0; k <= n; ++k) {
        if (k) w += sigma[r(0, (int) sigma.size() - 1)];
        d.push_back(r.chance(1, 3) ? r(0, r.chance(1, 4) ? 9 : 3) : r(0, 12) * 0.25);
      }
      return {w, d};
    }

    // The words which replace w on the way to a word of a row in P
    struct Chain {
      std::vector<TimedWord> words;
      std::vector<RecognizableLanguage::SplitTriple> links;
    };
    static std::optional<Chain> chase(const RecognizableLanguage &l, const TimedWord &w) {
      Chain c{{w}, {}};
      while (!l.inPrefixes(c.words.back())) {
        const auto s = l.split(c.words.back());
        if (!s) return std::nullopt;
        if (c.links.size() > 40) throw Unrepresentable("long chain");
        c.links.push_back(*s);
        c.words.push_back(s->apply());
      }
      return c;
    }

    // {"s":scale,"words":[..],"links":[{"dom","cod","ren","pre","suf","img"}]}
    std::string chainJson(const ObservationTable &t, const Chain &c) {
      long s = 1;
      std::vector<TimedWord> img;
      for (const auto &l: c.links) img.push_back(l.morphism.maps(l.prefix));
      auto add = [&](const TimedWord &w) { s = std::lcm(s, wordScale(w)); };
      for (const auto &w: c.words) add(w);
      for (const auto &w: img) add(w);
      for (const auto &l: c.links) { add(l.prefix); add(l.suffix); }
      if (s > 64) throw Unrepresentable("scale of a chain");
      const auto v = t.view();
      std::string j = "\"s\":" + num(s) + ",\"words\":" + arr(c.words, [&](const auto &w) { return wordJson(w, s); }) + ",\"links\":[";
      for (std::size_t k = 0; k < c.links.size(); ++k) {
        const auto &l = c.links[k];
        long dom = 0, cod = 0;
        RenamingRelation ren;
        for (std::size_t i = 0; i < v.prefixes.size() && !dom; ++i) {
          if (!(static_cast<const ElementaryLanguage &>(v.prefixes[i]) == l.morphism.getDomain()) || v.pIndices.count(i)) continue;
          dom = (long) i + 1;
          for (const auto &[to, rel]: v.closedRelation.at(i))
            if (SingleMorphism{v.prefixes[i], v.prefixes[to], rel} == l.morphism) { cod = (long) to + 1; ren = rel; }
        }
        j += (k ? "," : "") + ("{\"dom\":" + num(dom)) + ",\"cod\":" + num(cod) + ",\"ren\":" + renamingJson(ren) + ",\"pre\":" +
             wordJson(l.prefix, s) + ",\"suf\":" + wordJson(l.suffix, s) + ",\"img\":" + wordJson(img[k], s) + "}";
      }
      return j + "]";
    }

    void morphisms(ObservationTable &t, int count) {
      const auto l = t.toRecognizable();
      for (int i = 0; i < count; ++i) {
        auto w = anyWord();
        if (r.chance(1, 2)) { // a word of a row, perhaps continued
          const auto &v = t.view();
          w = v.prefixes.at(r(0, (int) v.prefixes.size() - 1)).sample();
          if (r.chance(1, 2)) w = w + v.suffixes.at(r(0, (int) v.suffixes.size() - 1)).sample();
        }
        try {
          const auto c = chase(l, w);
          if (!c) {
            chains.push_back("{\"step\":" + num((long) steps.size()) + ",\"hyp\":" + num((long) hyps.size()) + ",\"stuck\":1,\"s\":" +
                             num(wordScale(w)) + ",\"words\":[" + wordJson(w, wordScale(w)) + "],\"links\":[],\"in\":0,\"final\":0}");
            continue;
          }
          chains.push_back("{\"step\":" + num((long) steps.size()) + ",\"hyp\":" + num((long) hyps.size()) + ",\"stuck\":0," + chainJson(t, *c) + ",\"in\":" +
                           num(l.contains(w)) + ",\"final\":" + num(l.isFinal(c->words.back())) + "}");
        } catch (const Unrepresentable &) { ++skipped; }
      }
    }

    // The longest of some random words about which the hypothesis is wrong
    std::optional<TimedWord> longCounterexample(const TimedAutomaton &h) {
      std::optional<TimedWord> best;
      for (int i = 0; i < 40; ++i) {
        const int n = rb(0, 5);
        std::string w;
        std::vector<double> d;
        for (int k = 0; k <= n; ++k) {
          if (k) w += sigma[rb(0, (int) sigma.size() - 1)];
          d.push_back(rb.chance(1, 3) ? rb(0, 2) : rb(0, 8) * 0.25);
        }
        const TimedWord x{w, d};
        if (best && best->wordSize() >= x.wordSize()) continue;
        if (SULMembershipOracle{std::unique_ptr<SUL>(new TimedAutomatonRunner(h))}.answerQuery(x) != membership(x)) best = x;
      }
      return best;
    }

    bool membership(const TimedWord &w) { return mem->answerQuery(w); }

    void analysis(ObservationTable &t, const TimedWord &w, bool real) {
      const auto l = t.toRecognizable();
      try {
        const auto c = chase(l, w);
        if (!c || l.contains(w) == membership(w)) return;
        const auto res = analyzeCEX(w, *mem, l, t.view().suffixes);
        long s = res ? wordScale(*res) : 1;
        if (s > 64) throw Unrepresentable("scale");
        cexs.push_back("{\"step\":" + num((long) steps.size()) + ",\"hyp\":" + num((long) hyps.size()) + ",\"real\":" + num(real) + "," + chainJson(t, *c) + ",\"rs\":" + num(s) +
                       ",\"res\":" + (res ? "[" + wordJson(*res, s) + "]" : "[]") + "}");
      } catch (const Unrepresentable &) { ++skipped; }
    }
  };

  struct Watch : EquivalenceOracle {
    Trace &tr;
    std::unique_ptr<EquivalenceOracle> inner;
    Learner *learner = nullptr;
    Watch(Trace &tr, std::unique_ptr<EquivalenceOracle> inner) : tr(tr), inner(std::move(inner)) {}
    std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
      ++this->eqQueryCount;
      auto &t = learner->getTable();
      tr.step("hypothesis", t);
      tr.hypothesis(t, h);
      if (tr.has('m')) tr.morphisms(t, 6);
      auto r = tr.has('b') ? tr.longCounterexample(h) : std::nullopt;
      if (!r) r = inner->findCounterExample(h);
      if (tr.has('x')) {
        for (int i = 0; i < 8; ++i) {
          const auto w = tr.anyWord();
          if (t.toRecognizable().contains(w) != tr.membership(w)) tr.analysis(t, w, false);
        }
        if (r) tr.analysis(t, *r, true);
      }
      return r;
    }
  };

  std::unique_ptr<EquivalenceOracle> oracle(const TimedAutomaton &t, const std::vector<Alphabet> &al) {
    auto comp = t.complement(al);
    comp.simplifyStrong();
    comp.simplifyWithZones();
    return std::make_unique<ComplementTimedAutomataEquivalenceOracle>(t, comp, al);
  }

  void one(std::ostream &o, const std::string &id, const std::string &sigma, const TimedAutomaton &t, const std::string &parts, int seed) {
    const std::vector<Alphabet> al(sigma.begin(), sigma.end());
    const auto pristine = taJson(t);
    Trace tr{parts, sigma, t, seed};
    auto mem = std::make_unique<SymbolicMembershipOracle>(std::unique_ptr<SUL>(new TimedAutomatonRunner(t)));
    if (tr.has('s')) {
      auto eq = oracle(t, al);
      ObservationTable table{al, std::move(mem)};
      tr.step("start", table);
      while (true) {
        bool again = true;
        while (again) {
          const bool a = table.close();
          tr.step("close", table);
          if (!a) continue;
          const bool b = table.consistent();
          tr.step("consistent", table);
          if (!b) continue;
          const bool c = table.exteriorConsistent();
          tr.step("exterior", table);
          if (!c) continue;
          again = !table.timeSaturate();
          tr.step("saturate", table);
        }
        auto h = table.generateHypothesis();
        h.simplifyStrong();
        h.simplifyWithZones();
        tr.step("hypothesis", table);
        tr.hypothesis(table, h);
        const auto cex = eq->findCounterExample(h);
        if (!cex) break;
        table.handleCEX(*cex);
        tr.step("cex", table);
      }
    } else {
      auto watch = std::make_unique<Watch>(tr, oracle(t, al));
      auto *w = watch.get();
      Learner l{al, std::move(mem), std::move(watch)};
      w->learner = &l;
      l.run();
      tr.step("end", l.getTable());
    }
    o << "{\"id\":" << quote(id) << ",\"sigma\":" << arr(al, [](char c) { return act(c); }) << ",\"t\":" << pristine << ",\"rows\":" << tr.rows.json()
      << ",\"cols\":" << tr.cols.json() << ",\"cells\":" << tr.cells.json() << ",\"steps\":" << arr(tr.steps, vt::id) << ",\"hyps\":" << arr(tr.hyps, vt::id)
      << ",\"chains\":" << arr(tr.chains, vt::id) << ",\"cexs\":" << arr(tr.cexs, vt::id) << ",\"skipped\":" << tr.skipped << "}\n";
  }
}

int main(int argc, char **argv) {
  quiet();
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]);
  const std::string parts = argv[4];
  std::vector<Case> cases;
  for (int i = 5; i < argc; ++i) {
    std::stringstream ss(argv[i]);
    std::string fam, a, b;
    std::getline(ss, fam, ':'); std::getline(ss, a, ':'); std::getline(ss, b, ':');
    if (fam == "named") {
      for (const auto &t: namedTargets()) cases.push_back({"named-" + t.name, cpu, [=](std::ostream &o) { one(o, "named-" + t.name, t.sigma, t.ta, parts, 3); }});
      continue;
    }
    for (int s = std::stoi(a); s < std::stoi(b); ++s) {
      const auto [t, sigma] = familyTarget(fam, s);
      const std::string id = fam + "-" + num(s);
      cases.push_back({id, cpu, [=, t = t, sigma = sigma](std::ostream &o) { one(o, id, sigma, t, parts, s); }});
    }
  }
  runCases(cases, argv[1], jobs);
  return 0;
}
