// Language-preserving disguises and (possibly) language-changing mutations of automata, and the
// generic record format shared by the automaton-level drivers.
#pragma once
#include "targets.hh"

namespace vt {
  // ------------------------------------------------------------ overlap of guards (independent of the library)
  struct Range { double lo = 0; bool loC = true; double hi = 1e9; bool hiC = false; };
  inline bool meet(const std::vector<Constraint> &g1, const std::vector<Constraint> &g2, int clocks) {
    std::vector<Range> r(clocks);
    for (const auto *g: {&g1, &g2})
      for (const auto &c: *g) {
        auto &x = r.at(c.x);
        const double k = c.c;
        switch (c.odr) {
          case Constraint::Order::lt: if (k <= x.hi) { x.hi = k; x.hiC = false; } break;
          case Constraint::Order::le: if (k < x.hi) { x.hi = k; x.hiC = true; } break;
          case Constraint::Order::gt: if (k >= x.lo) { x.lo = k; x.loC = false; } break;
          case Constraint::Order::ge: if (k > x.lo) { x.lo = k; x.loC = true; } break;
        }
      }
    for (const auto &x: r)
      if (x.lo > x.hi || (x.lo == x.hi && !(x.loC && x.hiC))) return false;
    return true;
  }

  // No two transitions with the same label can be enabled together
  inline bool detSyntactic(const TimedAutomaton &ta) {
    for (const auto &s: ta.states)
      for (const auto &[a, ts]: s->next)
        for (std::size_t i = 0; i < ts.size(); ++i)
          for (std::size_t j = 0; j < i; ++j)
            if (meet(ts[i].guard, ts[j].guard, (int) ta.clockSize())) return false;
    return true;
  }

  inline std::vector<TATransition *> allTransitions(TimedAutomaton &ta) {
    std::vector<TATransition *> r;
    for (auto &s: ta.states) {
      std::map<Alphabet, std::vector<TATransition> *> sorted;
      for (auto &[a, ts]: s->next) sorted[a] = &ts;
      for (auto &[a, ts]: sorted) for (auto &t: *ts) r.push_back(&t);
    }
    return r;
  }

  inline TAState *anyState(Rng &r, TimedAutomaton &ta) { return ta.states.at(r(0, (int) ta.states.size() - 1)).get(); }

  // One small change which usually changes the language
  inline TimedAutomaton mutate(Rng &r, const TimedAutomaton &orig, int maxC) {
    for (int attempt = 0; attempt < 50; ++attempt) {
      auto ta = clone(orig);
      auto ts = allTransitions(ta);
      const int n = (int) ta.clockSize();
      const int kind = ts.empty() ? 0 : r(0, 9);
      TATransition *t = ts.empty() ? nullptr : ts.at(r(0, (int) ts.size() - 1));
      switch (kind) {
        case 0: { auto *s = anyState(r, ta); s->isMatch = !s->isMatch; break; }
        case 1: case 2:
          if (t->guard.empty()) continue;
          {
            auto &g = t->guard.at(r(0, (int) t->guard.size() - 1));
            switch (g.odr) {
              case Constraint::Order::lt: g.odr = Constraint::Order::le; break;
              case Constraint::Order::le: g.odr = Constraint::Order::lt; break;
              case Constraint::Order::gt: g.odr = Constraint::Order::ge; break;
              case Constraint::Order::ge: g.odr = Constraint::Order::gt; break;
            }
          }
          break;
        case 3:
          if (t->guard.empty()) continue;
          { auto &g = t->guard.at(r(0, (int) t->guard.size() - 1)); g.c = std::max(0, g.c + (r.chance(1, 2) ? 1 : -1)); }
          break;
        case 4:
          if (t->resetVars.empty()) continue;
          t->resetVars.erase(t->resetVars.begin() + r(0, (int) t->resetVars.size() - 1));
          break;
        case 5: {
          if (n == 0) continue;
          const auto x = static_cast<ClockVariables>(r(0, n - 1));
          bool has = false;
          for (auto &p: t->resetVars) has = has || p.first == x;
          if (has) continue;
          t->resetVars.emplace_back(x, 0.0);
          break;
        }
        case 6: t->target = anyState(r, ta); break;
        case 7: {
          auto *s = anyState(r, ta);
          if (s->next.empty()) continue;
          auto it = s->next.begin();
          if (it->second.empty()) continue;
          it->second.erase(it->second.begin() + r(0, (int) it->second.size() - 1));
          break;
        }
        case 8:
          if (n == 0) continue;
          t->guard.push_back({static_cast<ClockVariables>(r(0, n - 1)), r.chance(1, 2) ? Constraint::Order::le : Constraint::Order::lt, r(1, maxC)});
          break;
        default:
          if (n == 0) continue;
          t->guard.push_back({static_cast<ClockVariables>(r(0, n - 1)), r.chance(1, 2) ? Constraint::Order::ge : Constraint::Order::gt, r(0, maxC)});
          break;
      }
      if (!detSyntactic(ta)) continue;
      ta.maxConstraints.assign(n, maxC + 1);
      return ta;
    }
    return clone(orig);
  }

  // Several changes that keep the language and determinism but exercise the simplifications
  inline TimedAutomaton disguise(Rng &r, const TimedAutomaton &orig, const std::string &sigma, int maxC, bool overlapping) {
    auto ta = clone(orig);
    const int n = (int) ta.clockSize();
    const int rounds = r(1, 5);
    for (int k = 0; k < rounds; ++k) {
      auto ts = allTransitions(ta);
      switch (k + 1 == rounds && overlapping ? 8 : r(0, 7)) {
        case 0: { // a dead state, reached where nothing else is possible, with loops
          auto d = std::make_shared<TAState>(false);
          for (auto &s: ta.states)
            for (char a: sigma)
              if (s->next[a].empty() && r.chance(1, 2)) s->next[a].emplace_back(d.get(), TATransition::Resets{}, std::vector<Constraint>{});
          for (char a: sigma) if (r.chance(2, 3)) d->next[a].emplace_back(d.get(), TATransition::Resets{}, std::vector<Constraint>{});
          ta.states.push_back(d);
          break;
        }
        case 1: { // an unreachable state which leads back
          auto u = std::make_shared<TAState>(r.chance(1, 2));
          u->next[sigma[0]].emplace_back(anyState(r, ta), TATransition::Resets{}, std::vector<Constraint>{});
          ta.states.push_back(u);
          break;
        }
        case 2: case 3: { // split a transition at a value of a clock
          if (ts.empty() || n == 0) break;
          auto *s = anyState(r, ta);
          const char a = sigma[r(0, (int) sigma.size() - 1)];
          auto &v = s->next[a];
          if (v.empty()) break;
          const int i = r(0, (int) v.size() - 1);
          auto t1 = v[i], t2 = v[i];
          const auto x = static_cast<ClockVariables>(r(0, n - 1));
          const int c = r(0, maxC);
          if (r.chance(1, 2)) {
            t1.guard.push_back({x, Constraint::Order::le, c});
            t2.guard.push_back({x, Constraint::Order::gt, c});
          } else {
            t1.guard.push_back({x, Constraint::Order::lt, c});
            t2.guard.push_back({x, Constraint::Order::ge, c});
          }
          v[i] = t1;
          v.insert(v.begin() + r(0, (int) v.size()), t2);
          break;
        }
        case 4: // redundant conjunct
          if (!ts.empty() && n > 0) ts.at(r(0, (int) ts.size() - 1))->guard.push_back({static_cast<ClockVariables>(r(0, n - 1)), Constraint::Order::ge, 0});
          break;
        case 5: { // a bisimilar copy of a state
          const auto &s = ta.states.at(r(0, (int) ta.states.size() - 1));
          auto d = std::make_shared<TAState>(*s);
          if (!ts.empty()) {
            auto *t = ts.at(r(0, (int) ts.size() - 1));
            if (t->target == s.get()) t->target = d.get();
          }
          ta.states.push_back(d);
          break;
        }
        case 6: { // an unused clock which is reset now and then
          const auto x = static_cast<ClockVariables>(ta.maxConstraints.size());
          if (ta.maxConstraints.size() >= 3) break;
          ta.maxConstraints.push_back(0);
          for (auto *t: ts) if (r.chance(1, 3)) t->resetVars.emplace_back(x, 0.0);
          break;
        }
        case 7: { // shuffle the states (the initial one included)
          std::shuffle(ta.states.begin(), ta.states.end(), r.g);
          break;
        }
        default: { // a stronger duplicate of a transition (overlapping but with the same effect); last
          auto *s = anyState(r, ta);
          const char a = sigma[r(0, (int) sigma.size() - 1)];
          auto &v = s->next[a];
          if (v.empty()) break;
          auto t = v[r(0, (int) v.size() - 1)];
          if (n > 0) t.guard.push_back({static_cast<ClockVariables>(r(0, n - 1)), Constraint::Order::le, r(0, maxC)});
          v.insert(v.begin() + r(0, (int) v.size()), t);
          break;
        }
      }
    }
    return ta;
  }

  // ------------------------------------------------------------ generic record
  // {"id","sigma":[..],"p":[{"tag","rel","auts":[..],"det":[..],"tot":[..]}],"w":[{"tag","rel","auts":[..],"word":..}]}
  struct Rec {
    std::string id, sigma;
    std::vector<std::string> p, w;
    std::string extra;
    static std::string nums(const std::vector<int> &v) { return arr(v, [](int i) { return std::to_string(i); }); }
    void product(const std::string &tag, const std::string &rel, const std::vector<std::string> &auts, const std::vector<int> &det = {}, const std::vector<int> &tot = {}) {
      p.push_back("{\"tag\":" + quote(tag) + ",\"rel\":" + quote(rel) + ",\"auts\":" + arr(auts, [](const auto &x) { return x; }) +
                  ",\"det\":" + nums(det) + ",\"tot\":" + nums(tot) + "}");
    }
    void word(const std::string &tag, const std::string &rel, const std::vector<std::string> &auts, const TimedWord &x) {
      w.push_back("{\"tag\":" + quote(tag) + ",\"rel\":" + quote(rel) + ",\"auts\":" + arr(auts, [](const auto &y) { return y; }) +
                  ",\"word\":" + wordJson(x) + "}");
    }
    void write(std::ostream &o) const {
      o << "{\"id\":" << quote(id) << ",\"sigma\":" << arr(sigma, [](char c) { return act(c); }) << ",\"p\":" << arr(p, [](const auto &x) { return x; })
        << ",\"w\":" << arr(w, [](const auto &x) { return x; }) << extra << "}\n";
    }
  };
}
