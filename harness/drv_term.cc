// C32 coloured text: exactly the attributes asked for, and none when colours are off.
#include "cli_world.hpp"
#include "palette.hpp"
#include <sys/wait.h>

namespace {
  vector<std::pair<cmdr::terminal::colors::colorize::Colors256, int>> const &palette() {
#define X(n, v) {cmdr::terminal::colors::colorize::Colors256::n, v},
    static const vector<std::pair<cmdr::terminal::colors::colorize::Colors256, int>> p{PALETTE(X)};
#undef X
    return p;
  }

  using Col = cmdr::terminal::colors::colorize;

  // ---- a terminal: what a reader of the bytes sees
  struct Paint {
    bool at[10]{};
    string fg, bg; // "" = the terminal's own
    bool operator==(Paint const &o) const { return std::equal(at, at + 10, o.at) && fg == o.fg && bg == o.bg; }
    bool operator!=(Paint const &o) const { return !(*this == o); }
    string str() const {
      string s = "{";
      for (int i = 1; i < 10; i++)
        if (at[i]) s += std::to_string(i) + " ";
      return s + "fg=" + fg + " bg=" + bg + "}";
    }
  };
  struct Term {
    Paint p;
    string text;
    vector<Paint> cells; // of each byte of text
    string broken;
    void sgr(vector<int> const &a) {
      for (size_t i = 0; i < a.size(); i++) {
        int c = a[i];
        if (c == 0) p = Paint{};
        else if (c >= 1 && c <= 9) p.at[c] = true;
        else if (c == 21) p.at[1] = false;
        else if (c == 22) p.at[1] = p.at[2] = false;
        else if (c >= 23 && c <= 29) p.at[c - 20] = false;
        else if ((c >= 30 && c <= 37) || (c >= 90 && c <= 97)) p.fg = "16:" + std::to_string(c);
        else if ((c >= 40 && c <= 47) || (c >= 100 && c <= 107)) p.bg = "16:" + std::to_string(c - 10);
        else if (c == 39) p.fg.clear();
        else if (c == 49) p.bg.clear();
        else if (c == 38 || c == 48) {
          string &t = c == 38 ? p.fg : p.bg;
          if (i + 2 < a.size() && a[i + 1] == 5) {
            t = "256:" + std::to_string(a[i + 2]);
            if (a[i + 2] < 0 || a[i + 2] > 255) broken = "colour number out of range";
            i += 2;
          } else if (i + 4 < a.size() && a[i + 1] == 2) {
            t = "rgb:" + std::to_string(a[i + 2]) + "," + std::to_string(a[i + 3]) + "," + std::to_string(a[i + 4]);
            for (size_t k = 2; k < 5; k++)
              if (a[i + k] > 255) broken = "colour component out of range";
            i += 4;
          } else
            broken = "unfinished colour";
        } else
          broken = "unknown attribute " + std::to_string(c);
      }
    }
    void feed(string const &s) {
      for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != 27) {
          text += s[i], cells.push_back(p);
          continue;
        }
        if (i + 1 >= s.size() || s[i + 1] != '[') {
          broken = "not a CSI sequence";
          return;
        }
        size_t j = i + 2;
        vector<int> a;
        string n;
        for (; j < s.size() && (isdigit((unsigned char) s[j]) || s[j] == ';'); j++)
          if (s[j] == ';') a.push_back(n.empty() ? 0 : atoi(n.substr(0, 6).c_str())), n.clear();
          else
            n += s[j];
        a.push_back(n.empty() ? 0 : atoi(n.substr(0, 6).c_str()));
        if (j >= s.size() || s[j] != 'm') {
          broken = "malformed sequence at " + vh::show(s.substr(i, 20));
          return;
        }
        sgr(a);
        i = j;
      }
    }
  };

  struct Terminal { // of the environment
    string term, colorterm;
    bool on;
  };
  Terminal set_terminal(Rng &r) {
    Terminal t;
    static const vector<std::pair<char const *, bool>> terms{{"xterm", true}, {"xterm-256color", true}, {"linux", true}, {"screen", true}, {"screen.xterm-256color", true}, {"rxvt-unicode", true}, {"vt100", true}, {"dumb", false}, {"", false}, {"-", false}};
    static const vector<char const *> cts{"-", "truecolor", "24bit", "256", "16", "8", "garbage", ""};
    auto a = r.pick(terms);
    t.term = a.first, t.on = a.second;
    if (t.term == "-") unsetenv("TERM");
    else
      setenv("TERM", a.first, 1);
    t.colorterm = r.pick(cts);
    if (t.colorterm == "-") unsetenv("COLORTERM");
    else
      setenv("COLORTERM", t.colorterm.c_str(), 1);
    return t;
  }
  string rnd_bytes_no_esc(Rng &r) {
    string s;
    for (int n = r.range(0, 40); n > 0; n--) {
      char c = (char) r.range(1, 255);
      s += c == 27 ? '.' : c;
    }
    return s;
  }
  string rnd_text(Rng &r) {
    static const vector<string> w{"", "x", "some text", "5", ";", "m", "[0m", "a;b m", "caf\xc3\xa9", "two\nlines", "\t.", "0"};
    return r.chance(70) ? r.pick(w) : rnd_bytes_no_esc(r);
  }

  // ---- colorize objects
  struct Op { // what was asked for
    int kind;  // 0 attr, 1 fg, 2 bg, 3 reset everything
    int a = 0;
    bool b = false;
    string col;
  };
  void request(Paint &p, vector<Op> const &ops) {
    for (auto &o: ops) {
      if (o.kind == 0) p.at[o.a] = o.b;
      else if (o.kind == 1) p.fg = o.col;
      else if (o.kind == 2) p.bg = o.col;
      else
        p = Paint{};
    }
  }
  void modifier(Col &c, int i, bool b, bool as_reset) {
    switch (i) {
#define M(n, w)                        \
  case n:                              \
    if (as_reset) c.reset_##w();       \
    else if (b) c.w();                 \
    else                               \
      c.w(false);                      \
    break;
      M(1, bold)
      M(2, dim)
      M(3, italic)
      M(4, underline)
      M(5, blink)
      M(6, rblink)
      M(7, reverse)
      M(8, hidden)
      M(9, crossed)
#undef M
    }
  }
  std::ios::fmtflags rnd_flags(Rng &r, std::ostream &os) {
    if (r.chance(25)) os << std::hex;
    if (r.chance(10)) os << std::oct;
    if (r.chance(15)) os << std::showbase;
    if (r.chance(15)) os << std::showpos;
    if (r.chance(15)) os << std::uppercase;
    return os.flags();
  }

  void object_case(Rng &r) {
    auto t = set_terminal(r);
    string trail = "TERM=" + t.term + " COLORTERM=" + t.colorterm;
    bool on = t.on;
    Col c = r.chance(50) ? Col::create() : r.chance(50) ? Col{} : Col::new_colorizer();
    VH_CHECK(c.is_colorful() == on, "C32:colourful", "a new object is " << c.is_colorful() << "; " << trail);
    if (r.chance(20)) {
      on = r.chance(50);
      if (on && r.chance(50)) c.enable();
      else
        c.enable(on);
      trail += on ? " enable()" : " enable(false)";
    }
    Term term;
    vector<Op> ops;
    Paint cur; // the terminal as requested so far
    std::ostringstream os;
    auto fl   = rnd_flags(r, os);
    bool autor = true, uses_cc = false, uses_ss = false;
    string cc, ss;
    size_t cells = 0, bytes = 0;
    for (int n = r.range(1, 6), k = 0; k < n; k++) {
      if (r.chance(10)) {
        c.auto_reset(autor = r.chance(50));
        trail += autor ? " auto_reset" : " auto_reset(false)";
      }
      if (r.chance(6) && cur == Paint{}) {
        c.clear();
        autor = true;
        ops.clear(), cc.clear(), ss.clear();
        trail += " clear";
      }
      // requests of one print: colours and modifiers in any order
      int m   = r.chance(25) ? 0 : r.range(1, 4);
      bool nd = false; // dim(false) also switches bold off
      vector<int> todo;
      for (int i = 0; i < m; i++) todo.push_back(r.range(0, 9));
      if (r.chance(45)) todo.push_back(20);
      if (r.chance(35)) todo.push_back(21);
      for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[r.below(i)]);
      for (int w: todo) {
        if (w == 0) {
          if (!r.chance(15)) continue;
          c.reset_all();
          ops.clear();
          ops.push_back({3});
          trail += " reset_all";
        } else if (w < 10) {
          bool b = r.chance(80), rs = !b && r.chance(50);
          bool bold_pending = false;
          for (auto &o: ops) bold_pending |= o.kind == 0 && o.a == 1 && o.b;
          bold_pending |= cur.at[1];
          if (w == 2 && !b && bold_pending) continue;
          if (w == 1 && nd) continue;
          nd |= w == 2 && !b;
          modifier(c, w, b, rs);
          ops.push_back({0, w, b});
          trail += " m" + std::to_string(w) + (b ? "" : rs ? "reset" : "off");
        } else {
          int kind = r.range(0, 9);
          string col;
          if (kind < 2) { // the terminal's own
            w == 20 ? c.fg(Col::Colors256::Default) : c.bg(Col::Colors256::Default);
            // only meaningful when there is no colour to replace
            if ((w == 20 ? cur.fg : cur.bg) != "") {
              return;
            }
          } else if (kind < 7) {
            int v = r.chance(30) ? r.pick(vector<int>{0, 1, 9, 15, 16, 127, 254, 255}) : r.range(0, 255);
            col   = "256:" + std::to_string(v);
            auto cv = (Col::Colors256) v;
            if (r.chance(40)) { // by its name
              auto &q = r.pick(palette());
              v = q.second, cv = q.first, col = "256:" + std::to_string(v);
            }
            w == 20 ? c.fg(cv) : c.bg(cv);
          } else {
            auto q = [&] { return r.chance(30) ? r.pick(vector<int>{0, 1, 255}) : r.range(0, 255); };
            int R = q(), G = q(), B = q();
            col = "rgb:" + std::to_string(R) + "," + std::to_string(G) + "," + std::to_string(B);
            w == 20 ? c.fg(R, G, B) : c.bg(R, G, B);
          }
          for (size_t i = ops.size(); i-- > 0;)
            if (ops[i].kind == w - 19) ops.erase(ops.begin() + (long) i);
          ops.push_back({w - 19, 0, false, col});
          trail += string(w == 20 ? " fg(" : " bg(") + col + ")";
        }
      }
      static thread_local std::list<string> keep;
      keep.push_back(rnd_text(r));
      if (keep.size() > 16) keep.pop_front();
      if (r.chance(50)) c.s(keep.back().c_str()), cc = keep.back().c_str(), uses_cc = true;
      else
        c.s(keep.back()), ss = keep.back(), uses_ss = true;
      string want_text = cc + ss;
      trail += " s(" + vh::show(keep.back()) + ")";
      // colours first or last is all the same to the reader
      string got;
      if (r.chance(20)) {
        got = c.as_string();
      } else {
        os.str("");
        os << c;
        got = os.str();
        VH_CHECK(os.flags() == fl && os.good(), "C32:stream", "the flags of the stream changed; " << trail);
      }
      auto ctx = [&] { return trail + " flags=" + std::to_string((int) fl) + " got " + vh::show(got); };
      vh::sample(ctx());
      if (!on) {
        VH_CHECK(got == want_text, "C32:off", "colours are off, the text is " << vh::show(want_text) << "; " << ctx());
        vh::count("plain_prints");
      } else {
        size_t at = term.text.size();
        term.feed(got);
        VH_CHECK(term.broken.empty(), "C32:sequence", term.broken << "; " << ctx());
        VH_CHECK(term.text.substr(at) == want_text, "C32:text", "the reader sees " << vh::show(term.text.substr(at)) << " and not " << vh::show(want_text) << "; " << ctx());
        request(cur, ops);
        for (size_t i = at; i < term.cells.size(); i++)
          if (term.cells[i] != cur) {
            VH_CHECK(false, "C32:attributes", "the text appears as " << term.cells[i].str() << " and " << cur.str() << " was asked for; " << ctx());
            return;
          }
        cells += term.cells.size() - at;
        if (autor) cur = Paint{};
        VH_CHECK(term.p == cur, "C32:after", "afterwards the terminal is " << term.p.str() << " and should be " << cur.str() << "; " << ctx());
        if (term.p != cur) return;
        vh::count("coloured_prints");
      }
      if (autor) ops.clear(), cc.clear(), ss.clear();
      bytes += got.size();
      vh::seen(std::to_string(on) + trail.substr(trail.size() > 60 ? trail.size() - 60 : 0));
    }
    vh::count("cells", (int64_t) cells);
    (void) uses_cc, (void) uses_ss, (void) bytes;
  }

  // ---- 16 colours, straight into the stream
  void direct_case(Rng &r) {
    auto t    = set_terminal(r);
    bool on   = t.on;
    { auto c = Col::create(); }
    string trail = "TERM=" + t.term + " COLORTERM=" + t.colorterm;
    if (r.chance(30)) {
      on = r.chance(50);
      Col::set_default_colorful(on);
      trail += on ? " set_default_colorful" : " set_default_colorful(false)";
      if (r.chance(40)) {
        // another object, used elsewhere, does not undo the setting
        auto c = Col::create();
        VH_CHECK(c.is_colorful() == on, "C32:default-colourful", "a new object is " << (c.is_colorful() ? "colourful" : "plain") << "; " << trail);
        trail += " create()";
      }
    }
    std::ostringstream os;
    auto fl = rnd_flags(r, os);
    Paint cur;
    string want;
    vector<Paint> cells;
    for (int n = r.range(1, 12); n > 0; n--) {
      int k = r.range(0, 6);
      if (k == 0) {
        int a = r.range(0, 9);
        os << (enum Col::style) a;
        if (a == 0) cur = Paint{};
        else
          cur.at[a] = true;
        trail += " style" + std::to_string(a);
      } else if (k == 1) {
        int a = r.chance(15) ? 39 : r.range(30, 37);
        os << (enum Col::fg) a;
        cur.fg = a == 39 ? "" : "16:" + std::to_string(a);
        trail += " fg" + std::to_string(a);
      } else if (k == 2) {
        int a = r.chance(15) ? 49 : r.range(40, 47);
        os << (enum Col::bg) a;
        cur.bg = a == 49 ? "" : "16:" + std::to_string(a - 10);
        trail += " bg" + std::to_string(a);
      } else if (k == 3) {
        int a = r.range(90, 97);
        os << (enum Col::fgB) a;
        cur.fg = "16:" + std::to_string(a);
        trail += " fgB" + std::to_string(a);
      } else if (k == 4) {
        int a = r.range(100, 107);
        os << (enum Col::bgB) a;
        cur.bg = "16:" + std::to_string(a - 10);
        trail += " bgB" + std::to_string(a);
      } else if (k == 5 && r.chance(40)) {
        os << Col::reset::all;
        cur = Paint{};
        trail += " reset";
      } else {
        string s = rnd_text(r);
        os << s;
        for (size_t i = 0; i < s.size(); i++) cells.push_back(cur);
        want += s;
        trail += " " + vh::show(s);
      }
    }
    string got = os.str();
    auto ctx   = [&] { return trail + " flags=" + std::to_string((int) fl) + " got " + vh::show(got); };
    vh::sample(ctx());
    vh::count("direct_streams");
    VH_CHECK(os.flags() == fl, "C32:stream", ctx());
    Term term;
    term.feed(got);
    if (!on) VH_CHECK(got == want, "C32:off", "colours are off; " << ctx());
    else {
      VH_CHECK(term.broken.empty(), "C32:sequence", term.broken << "; " << ctx());
      VH_CHECK(term.text == want, "C32:text", ctx());
      for (size_t i = 0; i < cells.size() && i < term.cells.size(); i++)
        if (cells[i] != term.cells[i]) {
          VH_CHECK(false, "C32:attributes", "byte " << i << " of the text appears as " << term.cells[i].str() << " and " << cells[i].str() << " was asked for; " << ctx());
          break;
        }
      VH_CHECK(term.p == cur, "C32:after", ctx());
    }
    vh::seen(trail);
    Col::set_default_colorful(true);
  }

  // ---- the screens of an application
  struct Shot {
    string out, err;
    int rc;
  };
  void screen_case(Rng &r) {
    clean_env();
    setenv("TERM", "xterm-256color", 1);
    if (r.chance(50)) setenv("COLORTERM", "truecolor", 1);
    else
      unsetenv("COLORTERM");
    uint64_t seed = r.below(UINT64_MAX);
    vector<string> av;
    string what;
    string how = r.pick(vector<string>{"--no-color", "-nc", "NO_COLOR", "PLAIN"});
    bool flag  = how[0] == '-';
    string tree;
    World w;
    GenOpt g;
    g.overlap = false;
    w.root    = gen_app(r, g);
    w.build(true);
    auto shoot = [&](bool plain) {
      Rng q(seed);
      unsetenv("NO_COLOR");
      unsetenv("PLAIN");
      bool one = q.chance(50);
      if (plain && !flag) setenv(how.c_str(), one ? "1" : "true", 1);
      vector<C *> all;
      w.root->walk([&](C &c) { all.push_back(&c); });
      C *c = q.pick(all);
      vector<string> path;
      for (C *x = c; x->owner; x = x->owner) path.insert(path.begin(), x->lng);
      av = {"prog"};
      if (plain && flag) av.push_back(how);
      switch (q.range(0, 5)) {
        case 0:
          what = "help";
          av.insert(av.end(), path.begin(), path.end());
          for (int k = q.range(1, 3); k > 0; k--) av.push_back("--help");
          break;
        case 1:
          what = "help command";
          av.push_back("help");
          av.insert(av.end(), path.begin(), path.end());
          break;
        case 2:
          what = "tree";
          av.insert(av.end(), path.begin(), path.end());
          av.push_back("--tree");
          break;
        case 3:
          what = "debug";
          av.insert(av.end(), path.begin(), path.end());
          if (q.chance(50)) av.push_back("~~cli");
          av.push_back("~~debug");
          av.push_back("~~debug");
          if (q.chance(60)) av.push_back("~~debug");
          break;
        case 4:
          what = "unknown";
          av.push_back(q.chance(50) ? "--zzzzunknown" : "zzzzunknown");
          break;
        case 5: {
          what = "bad value";
          F *f = nullptr;
          for (auto &x: w.root->flags)
            if (!x->builtin && x->type == T_INT) f = x.get();
          av.push_back(f ? "--" + f->lng + "=zz" : "--zzz");
          break;
        }
      }
      tree = describe(*w.root);
      Argv argv(av);
      // each in a process of its own: nothing of the first run is left for the second
      Shot s{"", "", -1};
      int fd    = memfd_create("shot", 0);
      pid_t pid = fork();
      if (pid == 0) {
        vh::Capture cap;
        int rc = w.app->run(argv.argc(), argv.argv());
        cap.stop();
        string t = std::to_string(rc) + " " + std::to_string(cap.out.size()) + "\n" + cap.out + cap.err;
        for (size_t i = 0; i < t.size();) {
          ssize_t n = write(fd, t.data() + i, t.size() - i);
          if (n <= 0) _exit(9);
          i += (size_t) n;
        }
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      string t = vh::Capture::rd(fd);
      close(fd);
      size_t nl = t.find('\n'), len = 0;
      if (st != 0 || nl == string::npos || sscanf(t.c_str(), "%d %zu", &s.rc, &len) != 2) {
        VH_CHECK(false, "C32:screen-died", "the run ended with status " << st << "; " << what << " argv=" << vh::showv(av) << tree.substr(0, 2500));
        s.rc = -1;
        return s;
      }
      s.out = t.substr(nl + 1, len), s.err = t.substr(nl + 1 + len);
      return s;
    };
    Shot a = shoot(false);
    Shot b = shoot(true);
    unsetenv("NO_COLOR");
    unsetenv("PLAIN");
    auto ctx = [&] { return what + " " + how + " argv=" + vh::showv(av) + tree.substr(0, 2500) + "\n stdout=" + vh::show(b.out.substr(0, 1500)) + "\n stderr=" + vh::show(b.err.substr(0, 500)); };
    vh::count("screens");
    vh::count(what.c_str());
    vh::seen(what + how + tree.substr(0, 300));
    vh::sample(ctx());
    VH_CHECK(b.out.find(27) == string::npos && b.err.find(27) == string::npos, "C32:screen-off", "escape sequences although colours are off; " << ctx());
    Term t, e;
    t.feed(a.out);
    e.feed(a.err);
    VH_CHECK(t.broken.empty() && e.broken.empty(), "C32:screen-sequence", t.broken << e.broken << "; " << ctx());
    VH_CHECK(t.p == Paint{} && e.p == Paint{}, "C32:screen-after", "the terminal is left as " << t.p.str() << e.p.str() << "; " << ctx());
    vh::count("coloured_bytes", (int64_t) (a.out.size() - t.text.size()));
    for (size_t i = 0; i < t.cells.size(); i++)
      if (t.cells[i].bg != "") {
        VH_CHECK(false, "C32:screen-background", "no part of a screen asks for a background, " << vh::show(t.text.substr(i, 20)) << " appears as " << t.cells[i].str() << "; " << ctx());
        break;
      }
    // colours are all that differs
    // (hidden options are shown with their value, the one given by the environment among them)
    if (what != "debug" && (flag || std::count(av.begin(), av.end(), "--help") < 3)) {
      string x = t.text + e.text, y = b.out + b.err;
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
      size_t from = k > 80 ? k - 80 : 0;
      VH_CHECK(x == y && a.rc == b.rc, "C32:screen-differs", "with colours it reads …" << vh::show(x.substr(from, 200)) << " without …" << vh::show(y.substr(from, 200)) << " (" << a.rc << ", " << b.rc << "); " << ctx());
    }
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t, Rng &r) {
    int k = r.range(0, 9);
    if (k < 5) object_case(r);
    else if (k < 7) direct_case(r);
    else
      screen_case(r);
  });
}
