// Driver for the algebra of timed words (WordOps.tla).
#include "vt.hh"
using learnta::TimedWord;
namespace {
  struct Raw { std::string w; std::vector<double> d; };
  std::string letters(const std::string &w) { return vt::arr(w, [](char a) { return vt::act(a); }); }
  std::string durs(const std::vector<double> &d) { return vt::arr(d, [](double x) { return std::to_string(vt::scaled(x, 4)); }); }
  std::string plain(const std::string &w, const std::vector<double> &d) {
    return "{\"w\":" + letters(w) + ",\"d\":" + durs(d) + "}";
  }
  std::string plain(const TimedWord &u) { return plain(u.getWord(), u.getDurations()); }
  // what is printed, read back
  template<class F> std::string shown(F f) {
    std::ostringstream o;
    f(o);
    std::istringstream in(o.str());
    std::string w;
    std::vector<double> d;
    double x;
    std::string a;
    if (in >> x) d.push_back(x);
    while (in >> a) {
      w += a.size() == 1 ? a[0] : '?';
      if (in >> x) d.push_back(x); else break;
    }
    return plain(w, d);
  }
  std::string view(const TimedWord &u) {
    const auto one = shown([&](std::ostream &o) { u.print(o); });
    const auto two = shown([&](std::ostream &o) { o << u; });
    return "{\"w\":" + letters(u.getWord()) + ",\"d\":" + durs(u.getDurations()) + ",\"size\":" + std::to_string(u.wordSize()) +
           ",\"acc\":" + durs(u.getAccumulatedDurations()) + ",\"shown\":" + (one == two ? one : "{\"w\":[],\"d\":[]}") + "}";
  }
  struct Rec {
    std::vector<std::string> steps;
    void add(const std::string &op, const std::string &rest) { steps.push_back("{\"op\":\"" + op + "\"," + rest + "}"); }
  };
  TimedWord make(Rec &o, const Raw &r) {
    TimedWord u{r.w, r.d};
    o.add("make", "\"raw\":" + plain(r.w, r.d) + ",\"out\":" + view(u));
    return u;
  }
  void pair(Rec &o, TimedWord u, const TimedWord &v) {
    const auto before = plain(u), other = plain(v);
    auto uv = u + v;
    o.add("concat", "\"u\":" + before + ",\"v\":" + other + ",\"out\":" + view(uv));
    o.add("suffix", "\"u\":" + plain(uv) + ",\"p\":" + before + ",\"out\":" + view(uv.getSuffix(u)));
    o.add("same", "\"u\":" + before + ",\"out\":" + view(u));
    o.add("same", "\"u\":" + other + ",\"out\":" + view(v));
    o.add("equal", "\"u\":" + before + ",\"v\":" + other + ",\"eq\":" + (u == v ? "1" : "0") + ",\"hash\":" +
                   (hash_value(u) == hash_value(v) ? "1" : "0"));
  }
  void single(Rec &o, TimedWord u, char a, double t) {
    const auto before = plain(u);
    o.add("letter", "\"u\":" + before + ",\"a\":" + vt::act(a) + ",\"out\":" + view(u + a));
    o.add("delay", "\"u\":" + before + ",\"t\":" + std::to_string(vt::scaled(t, 4)) + ",\"out\":" + view(u + t));
    o.add("same", "\"u\":" + before + ",\"out\":" + view(u));
  }
}
int main(int argc, char **argv) {
  vt::quiet();
  const std::string out = argv[1];
  const int jobs = std::stoi(argv[2]), cpu = std::stoi(argv[3]), from = std::stoi(argv[4]), to = std::stoi(argv[5]);
  std::vector<vt::Case> cases;
  auto emit = [](std::ostream &o, const std::string &id, const Rec &rec) {
    o << "{\"id\":\"" << id << "\",\"steps\":" << vt::arr(rec.steps, [](const auto &x) { return x; }) << "}\n";
  };
  // exhaustive: all pairs of words with at most one letter over {a, b, unobservable}
  std::vector<Raw> small;
  for (double d: {0., 0.25, 1.}) small.push_back({"", {d}});
  for (char a: {'a', 'b', '\0'}) for (double d: {0., 0.25, 1.}) for (double e: {0., 0.5, 2.}) small.push_back({std::string(1, a), {d, e}});
  for (std::size_t i = 0; i < small.size(); ++i) {
    const std::string id = "e" + std::to_string(i);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rec rec;
      auto u = make(rec, small[i]);
      single(rec, u, 'b', 0.75);
      for (const auto &r: small) pair(rec, u, make(rec, r));
      emit(o, id, rec);
    }});
  }
  for (int s = from; s < to; ++s) {
    const std::string id = "w" + std::to_string(s);
    cases.push_back({id, cpu, [=](std::ostream &o) {
      Rec rec;
      vt::Rng r(s);
      if (s == from) rec.add("empty", "\"out\":" + view(TimedWord{}));
      auto some = [&] {
        Raw x;
        const int n = r(0, 6);
        x.d.push_back(r(0, 12) / 4.);
        for (int i = 0; i < n; ++i) {
          x.w += r.chance(1, 4) ? '\0' : static_cast<char>('a' + r(0, 2));
          x.d.push_back(r.chance(1, 3) ? 0. : r(0, 12) / 4.);
        }
        return x;
      };
      auto u = make(rec, some());
      for (int i = 0; i < 6; ++i) {
        auto v = make(rec, some());
        pair(rec, u, v);
        single(rec, v, static_cast<char>('a' + r(0, 2)), r(0, 9) / 4.);
        // a prefix of u which may end within a duration
        const int k = r(0, (int) u.wordSize());
        std::vector<double> d{u.getDurations().begin(), u.getDurations().begin() + k + 1};
        d.back() = r(0, (int) vt::scaled(d.back(), 4)) / 4.;
        TimedWord p{u.getWord().substr(0, k), d};
        rec.add("suffix", "\"u\":" + plain(u) + ",\"p\":" + plain(p) + ",\"out\":" + view(u.getSuffix(p)));
        auto again = p + u.getSuffix(p);
        rec.add("same", "\"u\":" + plain(u) + ",\"out\":" + view(again));
        pair(rec, u, again);
        // words that differ in a single place, or in the order of two durations or letters
        auto near = [&](std::string w, std::vector<double> d) {
          const TimedWord x{w, d};
          for (const auto &[l, m]: {std::pair{u, x}, std::pair{x, u}})
            rec.add("equal", "\"u\":" + plain(l) + ",\"v\":" + plain(m) + ",\"eq\":" + (l == m ? "1" : "0") + ",\"hash\":" +
                             (hash_value(l) == hash_value(m) ? "1" : "0"));
        };
        const int n = (int) u.wordSize();
        {
          auto e = u.getDurations();
          e.at(r(0, n)) += 0.25;
          near(u.getWord(), e);
          e = u.getDurations();
          std::swap(e.at(r(0, n)), e.at(r(0, n)));
          near(u.getWord(), e);
          auto w = u.getWord();
          if (n > 0) {
            w.at(r(0, n - 1)) = static_cast<char>('a' + r(0, 2));
            near(w, u.getDurations());
            w = u.getWord();
            std::swap(w.at(r(0, n - 1)), w.at(r(0, n - 1)));
            near(w, u.getDurations());
          }
        }
        if (r.chance(1, 2)) u = u + v;
        if (u.wordSize() > 12) u = v;
      }
      emit(o, id, rec);
    }});
  }
  vt::runCases(cases, out, jobs);
  return 0;
}
