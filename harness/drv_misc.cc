// C33 callable helpers; C34 the log.
#include "cmdr11/cmdr11.hh"
#include "cmdr11/cmdr_pipeable.hh"
#include "common.hpp"
#include <thread>

using std::string;
using std::vector;
using vh::Rng;
namespace u = cmdr::util;

namespace {
  // ---- every call leaves a line
  struct Calls {
    vector<string> l;
    template<class... A>
    void add(char const *who, A const &...a) {
      std::ostringstream os;
      os << who;
      ((os << "|" << a), ...);
      l.push_back(os.str());
    }
  };
  Calls *g_calls = nullptr;
  std::ostream &operator<<(std::ostream &os, std::unique_ptr<int> const &p) { return os << "u" << (p ? *p : -1); }

  string f4(int a, string const &b, double c, char d) {
    g_calls->add("f4", a, b, c, d);
    return std::to_string(a) + b + d;
  }
  int sub3(int a, int b, int c) {
    g_calls->add("sub3", a, b, c);
    return a * 100 - b * 10 + c;
  }
  void upd(int &x, string &s, int by) {
    g_calls->add("upd", x, s, by);
    x += by, s += "!";
  }
  struct Acc {
    int base;
    static int copies;
    explicit Acc(int b)
        : base(b) {}
    Acc(Acc const &o)
        : base(o.base) { copies++; }
    int mul(int a, int b) {
      g_calls->add("mul", base, a, b);
      base++;
      return base * 1000 + a * 10 + b;
    }
    string name(string const &s, int n) const {
      g_calls->add("name", base, s, n);
      return s + std::to_string(n + base);
    }
    int operator()(int a, int b) const {
      g_calls->add("op", base, a, b);
      return base + a - b;
    }
  };
  int Acc::copies = 0;

  string rnd_s(Rng &r) {
    static const vector<string> w{"", "a", "abc", "a rather long text that no small buffer has room for", "x y", "\xc3\xa9"};
    return r.pick(w);
  }

  void callable_case(int64_t, Rng &r) {
    Calls calls;
    g_calls = &calls;
    vector<string> want;
    string trail;
    auto W = [&](char const *who, auto const &...a) {
      Calls c;
      c.add(who, a...);
      want.push_back(c.l[0]);
    };
    using namespace std::placeholders;
    for (int n = r.range(2, 6); n > 0; n--) {
      int a = r.range(-9, 9), b = r.range(-9, 9), c = r.range(-9, 9), k = r.range(0, 15);
      string s = rnd_s(r), s2 = rnd_s(r);
      trail += " " + std::to_string(k);
      auto ctx = [&] { return "helper " + std::to_string(k) + " of" + trail + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " c=" + std::to_string(c) + " s=" + vh::show(s); };
#define EQ(x, y)                                                                                                  \
  do {                                                                                                            \
    auto vx_ = (x);                                                                                               \
    auto vy_ = (y);                                                                                               \
    VH_CHECK(vx_ == vy_, "C33:result", "the call gives " << vx_ << " and should give " << vy_ << "; " << ctx()); \
  } while (0)
      switch (k) {
        case 0: { // bind, every order of placeholders
          auto f = u::bind(sub3, _2, b, _1);
          EQ(f(a, c), c * 100 - b * 10 + a);
          W("sub3", c, b, a);
          auto g = u::cool::bind(sub3, _1, _1, b);
          EQ(g(a), a * 100 - a * 10 + b);
          W("sub3", a, a, b);
          break;
        }
        case 1: { // bind keeps copies
          string x = s;
          auto f   = u::bind(f4, a, x, 1.5, _1);
          x        = "changed";
          EQ(f('q'), std::to_string(a) + s + 'q');
          W("f4", a, s, 1.5, 'q');
          break;
        }
        case 2: { // members, by pointer, copy and reference
          Acc o(a);
          auto f = u::bind(&Acc::mul, &o, _1, b);
          EQ(f(c), (a + 1) * 1000 + c * 10 + b);
          W("mul", a, c, b);
          EQ(o.base, a + 1);
          auto g = u::bind(&Acc::mul, o, _1, b);
          EQ(g(c), (a + 2) * 1000 + c * 10 + b);
          W("mul", a + 1, c, b);
          EQ(o.base, a + 1);
          auto h = u::bind(&Acc::mul, std::ref(o), b, _1);
          EQ(h(c), (a + 2) * 1000 + b * 10 + c);
          W("mul", a + 1, b, c);
          EQ(o.base, a + 2);
          break;
        }
        case 3: { // easy_bind: the rest of the arguments, in order
          std::function<int(int, int, int)> f = sub3;
          EQ(u::easy_bind(f)(a, b, c), a * 100 - b * 10 + c);
          EQ(u::easy_bind(f, a)(b, c), a * 100 - b * 10 + c);
          EQ(u::easy_bind(f, a, b)(c), a * 100 - b * 10 + c);
          EQ(u::easy_bind(f, a, b, c)(), a * 100 - b * 10 + c);
          for (int i = 0; i < 4; i++) W("sub3", a, b, c);
          std::function<string(int, string const &, double, char)> g = f4;
          auto e = u::easy_bind(g, a, s);
          EQ(e(2.5, 'z'), std::to_string(a) + s + 'z');
          EQ(e(3.5, 'y'), std::to_string(a) + s + 'y');
          W("f4", a, s, 2.5, 'z');
          W("f4", a, s, 3.5, 'y');
          break;
        }
        case 4: { // easy_bind of member functions through std::function
          Acc o(a);
          std::function<int(Acc &, int, int)> f = &Acc::mul;
          EQ(u::easy_bind(f, std::ref(o))(b, c), (a + 1) * 1000 + b * 10 + c);
          W("mul", a, b, c);
          EQ(o.base, a + 1);
          break;
        }
        case 5: { // bind_this
          Acc o(a);
          auto f = u::bind_this(&o, &Acc::mul);
          EQ(f(b, c), (a + 1) * 1000 + b * 10 + c);
          W("mul", a, b, c);
          EQ(o.base, a + 1);
          Acc const co(b);
          auto g = u::bind_this(&co, &Acc::name);
          EQ(g(s, c), s + std::to_string(c + b));
          W("name", b, s, c);
          break;
        }
        case 6: { // partial
          EQ(u::cool::partial(sub3)(a, b, c), a * 100 - b * 10 + c);
          EQ(u::cool::partial(sub3, a)(b, c), a * 100 - b * 10 + c);
          EQ(u::cool::partial(sub3, a, b)(c), a * 100 - b * 10 + c);
          EQ(u::cool::partial(sub3, a, b, c)(), a * 100 - b * 10 + c);
          for (int i = 0; i < 4; i++) W("sub3", a, b, c);
          auto p = u::cool::partial(f4, (int) a, string(s));
          EQ(p(0.5, 'k'), std::to_string(a) + s + 'k');
          EQ(p(1.5, 'l'), std::to_string(a) + s + 'l'); // what was bound is still there
          W("f4", a, s, 0.5, 'k');
          W("f4", a, s, 1.5, 'l');
          break;
        }
        case 7: { // partial passes references on
          int x    = a;
          string t = s;
          auto p   = u::cool::partial(upd, x);
          p(t, b);
          W("upd", a, s, b);
          EQ(x, a + b);
          EQ(t, s + "!");
          p(t, c);
          W("upd", a + b, s + "!", c);
          EQ(x, a + b + c);
          break;
        }
        case 8: { // curry, any grouping
          auto cf = u::cool::curry(sub3);
          int R   = a * 100 - b * 10 + c;
          int v   = r.range(0, 3);
          if (v == 0) EQ(cf((int) a)((int) b)((int) c), R);
          else if (v == 1) EQ(cf((int) a, (int) b)((int) c), R);
          else if (v == 2) EQ(cf((int) a)((int) b, (int) c), R);
          else
            EQ(cf((int) a, (int) b, (int) c), R);
          W("sub3", a, b, c);
          break;
        }
        case 9: { // a curried step can be kept and used again
          auto step = u::cool::curry(sub3)((int) a);
          EQ(step((int) b)((int) c), a * 100 - b * 10 + c);
          EQ(step((int) c)((int) b), a * 100 - c * 10 + b);
          W("sub3", a, b, c);
          W("sub3", a, c, b);
          auto cs = u::cool::curry(f4);
          auto s1 = cs((int) a)(string(s));
          EQ(s1(1.0)('m'), std::to_string(a) + s + 'm');
          EQ(s1(2.0, 'n'), std::to_string(a) + s + 'n');
          W("f4", a, s, 1.0, 'm');
          W("f4", a, s, 2.0, 'n');
          break;
        }
#ifndef VH_NO_CURRY_LVALUE
        case 10: { // curry with named objects
          string const t = s;
          string m       = s2;
          int x = a;
          auto l = [](int i, string const &p, string const &q) { g_calls->add("l", i, p, q); return p + q + std::to_string(i); };
          auto one = u::cool::curry(l)(x);
          auto two = one(t);
          EQ(two(m), s + s2 + std::to_string(a));
          EQ(one(m)(t), s2 + s + std::to_string(a));
          W("l", a, s, s2);
          W("l", a, s2, s);
          break;
        }
#else
        case 10: break;
#endif
        case 11: { // bind_tie: the first N of a list of arguments
          EQ(u::cool::bind_tie<3>(sub3, a, b, _1)(c), a * 100 - b * 10 + c);
          EQ(u::cool::bind_tie<3>(sub3, _1, b, _2, _3)(a, c), a * 100 - b * 10 + c);
          W("sub3", a, b, c);
          W("sub3", a, b, c);
          Acc o(a);
          EQ(u::cool::bind_tie<2>(&Acc::mul, &o, _1, _2)(b, c), (a + 1) * 1000 + b * 10 + c);
          W("mul", a, b, c);
          EQ(o.base, a + 1);
          break;
        }
        case 12: { // lambdas as std::function
          int seen = 0;
          auto l   = [&](string const &p, int q) { seen++; g_calls->add("l", p, q); return p + std::to_string(q); };
          auto f   = cmdr::traits::to_function(l);
          auto g   = cmdr::traits::lambda_to_function(l);
          auto h   = cmdr::traits::l2f(l);
          static_assert(std::is_same_v<std::decay_t<decltype(g)>, std::function<string(string const &, int)>>);
          EQ(f(s, a), s + std::to_string(a));
          EQ(g(s, b), s + std::to_string(b));
          EQ(h(s2, c), s2 + std::to_string(c));
          W("l", s, a);
          W("l", s, b);
          W("l", s2, c);
          EQ(seen, 3);
          static_assert(cmdr::traits::argCount<sub3> == 3 && cmdr::traits::n_args<f4> == 4);
          EQ((int) cmdr::traits::args_count(f4), 4);
          EQ((int) cmdr::traits::member_args_count(&Acc::mul).value, 2);
          break;
        }
        case 13: { // pipes
          using namespace cmdr::pipeable;
          auto sub = piped([](int p, int q, int z) { g_calls->add("p", p, q, z); return p * 100 - q * 10 + z; });
          EQ(a | sub(b, c), a * 100 - b * 10 + c);
          W("p", a, b, c);
          EQ(a | sub(b, c) | sub(c, a), (a * 100 - b * 10 + c) * 100 - c * 10 + a);
          W("p", a, b, c);
          W("p", a * 100 - b * 10 + c, c, a);
          auto app = piped([](string const &p, string const &q) { g_calls->add("cat", p, q); return p + q; });
          EQ(string(s) | app(s2) | app(string("-")), s + s2 + "-");
          W("cat", s, s2);
          W("cat", s + s2, "-");
          break;
        }
        case 14: { // visiting what an std::any holds
          std::any v;
          int t = r.range(0, 4);
          if (t == 0) v = a;
          else if (t == 1) v = s;
          else if (t == 2) v = (double) b;
          else if (t == 3) v = (long) c;
          string got;
          bool threw = false;
          try {
            u::visit_any_as<int, string, double>(v, [&](auto const &x) {
              std::ostringstream os;
              os << typeid(x).name() << x;
              got += os.str();
            });
          } catch (std::exception const &) {
            threw = true;
          }
          std::ostringstream w;
          if (t == 0) w << typeid(int).name() << a;
          else if (t == 1) w << typeid(string).name() << s;
          else if (t == 2) w << typeid(double).name() << (double) b;
          EQ(got, w.str());
          EQ(threw, t > 2);
          break;
        }
        case 15: { // small predicates
          EQ(u::is_in(a, b, c, 3), (a == b || a == c || a == 3));
          EQ(u::is_in(s, s2, string("abc")), (s == s2 || s == "abc"));
          EQ(u::is_in(a), false);
          vector<string> k1, k2;
          for (int i = r.range(0, 3); i > 0; i--) k1.push_back(rnd_s(r));
          k2 = k1;
          if (r.chance(50)) {
            if (r.chance(50) || k2.empty()) k2.push_back(rnd_s(r));
            else
              k2[r.below(k2.size())] = rnd_s(r);
          }
          vector<char const *> p1, p2;
          for (auto &x: k1) p1.push_back(x.c_str());
          for (auto &x: k2) p2.push_back(x.c_str());
          EQ(u::compare_vector_values(p1, p2), k1 == k2);
          static const vector<std::pair<char const *, char const *>> sh{{"/bin/bash", "bash"}, {"/usr/local/bin/zsh", "zsh"}, {"fish", "fish"}, {"-", "unknown"}, {"/opt/a b/my sh", "my sh"}};
          auto q = r.pick(sh);
          if (q.first[0] == '-') unsetenv("SHELL");
          else
            setenv("SHELL", q.first, 1);
          EQ(u::detect_shell_env(), string(q.second));
          break;
        }
      }
      VH_CHECK(calls.l == want, "C33:calls", "the callables saw " << vh::showv(calls.l) << " and should have seen " << vh::showv(want) << "; " << ctx());
      if (calls.l != want) return;
      vh::count("helpers");
      vh::seen(ctx());
      vh::sample(ctx());
    }
    vh::count("calls_observed", (int64_t) want.size());
  }

  // ---- the log: one complete line per call
  struct Line {
    string text, func;
    int line;
  };
  string utc(time_t t) {
    struct tm tm {};
    gmtime_r(&t, &tm);
    char b[64];
    strftime(b, sizeof b, "%m/%d/%y %H:%M:%S", &tm);
    return b;
  }
  string strip(string const &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') {
        i += 2;
        while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
      } else
        o += s[i];
    }
    return o;
  }
  string rnd_msg(Rng &r) {
    static const vector<string> w{"", "hello", "100%", "%s%n%d", "a [debug]: b", "x", "file.cc:12 (f)"};
    if (r.chance(60)) return r.pick(w);
    string s;
    for (int n = r.chance(20) ? r.range(1000, 6000) : r.range(1, 200); n > 0; n--) s += (char) r.range(' ', '~');
    return s;
  }
  Line say(Rng &r, string const &tag) {
    string m = rnd_msg(r);
    int i    = r.range(-100000, 100000);
    char b[8192];
    switch (r.range(0, 3)) {
      case 0: cmdr_print("%s %s", tag.c_str(), m.c_str()); return {tag + " " + m, __PRETTY_FUNCTION__, __LINE__};
      case 1:
        snprintf(b, sizeof b, "%s #%d/%5.2f", tag.c_str(), i, i / 7.0);
        cmdr_print("%s #%d/%5.2f", tag.c_str(), i, i / 7.0); return {b, __PRETTY_FUNCTION__, __LINE__};
      case 2:
        snprintf(b, sizeof b, "%s %s|%ld|%x|%c", tag.c_str(), m.c_str(), i * 1000000L, (unsigned) i, 'k');
        cmdr_print("%s %s|%ld|%x|%c", tag.c_str(), m.c_str(), i * 1000000L, (unsigned) i, 'k'); return {b, __PRETTY_FUNCTION__, __LINE__};
      default: {
        auto &&h = [&] { cmdr::log::holder("some/file.cc", 4711, "void f(int)")("%s-%s-%s", m.c_str(), tag.c_str(), m.c_str()); };
        h();
        return {m + "-" + tag + "-" + m, "void f(int)", 4711};
      }
    }
  }
  void log_case(int64_t, Rng &r) {
    int nt = r.chance(30) ? 1 : r.range(2, 6), per = r.range(1, 25);
    vector<vector<Line>> said((size_t) nt);
    static const vector<char const *> tz{"UTC", "America/New_York", "Asia/Kathmandu"};
    setenv("TZ", r.pick(tz), 1);
    tzset();
    vector<Rng> rs;
    for (int i = 0; i < nt; i++) rs.emplace_back(r.below(UINT64_MAX));
    time_t t0 = time(nullptr);
    vh::Capture cap;
    {
      vector<std::thread> ts;
      std::atomic<int> go{0};
      auto work = [&](int t) {
        go++;
        while (go < nt) std::this_thread::yield();
        for (int k = 0; k < per; k++) {
          said[(size_t) t].push_back(say(rs[(size_t) t], "t" + std::to_string(t) + "k" + std::to_string(k)));
          if (rs[(size_t) t].chance(20)) std::this_thread::yield();
        }
      };
      for (int t = 1; t < nt; t++) ts.emplace_back(work, t);
      work(0);
      for (auto &t: ts) t.join();
    }
    cap.stop();
    time_t t1 = time(nullptr);
    setenv("TZ", "UTC", 1);
    tzset();
    std::set<string> stamps;
    for (time_t t = t0; t <= t1; t++) stamps.insert(utc(t));
    vector<string> lines;
    std::stringstream ss(strip(cap.out));
    string l;
    while (std::getline(ss, l)) lines.push_back(l);
    auto ctx = [&] { return std::to_string(nt) + " threads of " + std::to_string(per) + " calls"; };
    VH_CHECK(lines.size() == (size_t) (nt * per), "C34:lines", lines.size() << " lines from " << ctx() << ": " << vh::showv(lines).substr(0, 1500));
    VH_CHECK(cap.out.empty() || cap.out.back() == '\n', "C34:lines", "the last line is not complete; " << ctx());
    // the calls of each thread in their order, each exactly once
    vector<size_t> at((size_t) nt, 0);
    for (auto &x: lines) {
      bool ok = false;
      for (int t = 0; t < nt && !ok; t++) {
        if (at[(size_t) t] >= said[(size_t) t].size()) continue;
        auto &e = said[(size_t) t][at[(size_t) t]];
        auto tail = ":" + std::to_string(e.line) + " (" + e.func + ")";
        string body = " [debug]:";
        if (x.size() < 17 + body.size() || x.compare(17, body.size(), body) != 0) continue;
        string rest = x.substr(17 + body.size());
        // a blank, the text, two blanks, the place
        string file = e.line == 4711 ? "some/file.cc" : __FILE__;
        if (rest != " " + e.text + "  " + file + tail) continue;
        ok = true;
        at[(size_t) t]++;
        VH_CHECK(stamps.count(x.substr(0, 17)), "C34:time", "the line says " << x.substr(0, 17) << " and it is " << *stamps.begin() << "; " << ctx());
      }
      VH_CHECK(ok, "C34:line", "the line " << vh::show(x.substr(0, 600)) << " is not the next call of any thread; " << ctx());
      if (!ok) return;
      vh::count("log_lines");
    }
    vh::seen(vh::fnv(cap.out));
    vh::count(nt > 1 ? "concurrent_cases" : "single_cases");
    vh::sample(ctx() + " " + (lines.empty() ? "" : lines[0].substr(0, 300)));
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) {
    if (vh::opt().mode == "C34") log_case(c, r);
    else
      callable_case(c, r);
  });
}
