// C06 any input is handled, C08 definitions and look-ups, C09 reset, C10 help screens.
#include "cli_world.hpp"
#include <complex>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <sys/ioctl.h>
#include <sys/syscall.h>

// the terminal size the code under test sees (stand-in for the ioctl on standard output)
static int g_cols = 0, g_rows = 0;
extern "C" int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *p = va_arg(ap, void *);
  va_end(ap);
  if (req == TIOCGWINSZ && p) {
    auto *w = (winsize *) p;
    if (g_cols < 0) return errno = ENOTTY, -1;
    w->ws_col = (unsigned short) g_cols, w->ws_row = (unsigned short) g_rows;
    return 0;
  }
  return (int) syscall(SYS_ioctl, fd, req, p);
}

namespace {
  int rnd_cols(Rng &r) {
    int k = r.range(0, 9);
    if (k == 0) return -1;
    if (k == 1) return 0;
    if (k == 2) return r.range(1, 30);
    if (k == 3) return 65535;
    if (k < 7) return r.range(40, 75);
    return r.range(30, 200);
  }

  // ---------------------------------------------------------------- C06
  template<class V, class P>
  void raw_opt(Rng &r, P &parent, string const &l, string const &s, V const &v) {
    cmdr::opt::opt o{v};
    o(l.c_str(), s.empty() ? nullptr : s.c_str());
    if (r.chance(30)) o.env_vars("ENV_A");
    if (r.chance(20)) o.placeholder("VAL");
    if (r.chance(50)) o.description("some option of this command with a text that may have to be wrapped");
    parent += o;
  }
  string junk(Rng &r, int maxlen) {
    string s;
    int n = r.range(0, maxlen);
    for (int i = 0; i < n; i++) {
      int k = r.range(0, 9);
      if (k < 5) {
        static const string a = "-~/=+,.'\"[]{}():;$ 0123456789eExXabtnyfs\\%#";
        s += a[r.below(a.size())];
      } else if (k < 8)
        s += (char) r.range('a', 'z');
      else
        s += (char) r.range(1, 255);
    }
    return s;
  }
  string any_value(Rng &r) {
    static const vector<string> sp{"{}", "{", "}", "{}x", "[", "]", "[]", "[,]", "[1,2", ",", "\"", "''", "\"\"", "'", "-", "--", "+", "0x", "1e999", "-1", "99999999999999999999999", "-99999999999999999999999", "1.5.5", "(1,2)", "(1,", "(", "1+2i", "i", "-i", "nan", "inf", "10s", "1h2m", "3x", "true", "FALSE", "tru", "yesno", "0", "1", "~", "~~", "=", "==", "$HOME", "${HOME", "%s%n", "\xff\xfe", " ", "\t", "\n", "a b c"};
    int k = r.range(0, 9);
    if (k < 4) return r.pick(sp);
    if (k < 8) return rnd_value(r, (int) r.below(T_N));
    if (k == 8) return string((size_t) r.range(0, 700), (char) r.range(32, 126));
    return junk(r, 20);
  }
  void anything_case(int64_t, Rng &r) {
    clean_env();
    if (geteuid() == 0) {
      if (setgid(65534) || setuid(65534)) _exit(9);
    }
    g_cols = rnd_cols(r), g_rows = r.range(0, 60);
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.overlap  = r.chance(40);
    g.max_subs = 2, g.max_depth = 2;
    w.root     = gen_app(r, g);
    static const vector<string> evs{"ENV_A", "ENV_B", "HELP", "DEBUG", "ENV-C"};
    w.root->walk([&](C &c) {
      if (c.builtin) return;
      if (r.chance(60)) c.desc = rnd_text(r, true) + string((size_t) r.range(0, 120), 'd');
      if (r.chance(40)) c.group = r.pick(vector<string>{"1.A", "1.B", "Z", "3333", "x.", "9000.System Management"});
      c.hidden = c.owner && r.chance(15);
      for (auto &f: c.flags) {
        if (f->builtin) continue;
        if (r.chance(60)) f->desc = rnd_text(r, true) + string((size_t) r.range(0, 150), 'e');
        if (r.chance(30)) f->group = r.pick(vector<string>{"1.A", "1.B", "Z", "3333", "x.", "."});
        if (r.chance(20)) f->tg = "tg";
        if (r.chance(30)) f->placeholder = "PH";
        if (r.chance(30)) f->envs.push_back(r.pick(evs));
        f->hidden   = r.chance(10);
        f->required = r.chance(2);
      }
    });
    w.build();
    auto &app = *w.app;
    std::vector<string> xl;
    try {
      auto *lac = app.last_added_command();
      for (int i = 0, n = r.range(0, 5); i < n; i++) {
        string l = "xt" + std::to_string(i);
        xl.push_back(l);
        cmdr::opt::cmd &where = lac && r.chance(40) ? *lac : (cmdr::opt::cmd &) app;
        switch (r.range(0, 12)) {
          case 0: raw_opt(r, where, l, "", (int8_t) 'c'); break;
          case 1: raw_opt(r, where, l, "", (short) 3); break;
          case 2: raw_opt(r, where, l, "", (unsigned short) 3); break;
          case 3: raw_opt(r, where, l, "", (unsigned long) 3); break;
          case 4: raw_opt(r, where, l, "", 3.5f); break;
          case 5: raw_opt(r, where, l, "", (long double) 3.5); break;
          case 6: raw_opt(r, where, l, "", std::complex<double>{1, 2}); break;
          case 7: raw_opt(r, where, l, "", std::chrono::seconds{30}); break;
          case 8: raw_opt(r, where, l, "", std::chrono::nanoseconds{30}); break;
          case 9: raw_opt(r, where, l, "", vector<double>{1.5, 2}); break;
          case 10: raw_opt(r, where, l, "", vector<bool>{true, false}); break;
          case 11: raw_opt(r, where, l, "", std::complex<float>{1, 2}); break;
          default: raw_opt(r, where, l, "", string("text")); break;
        }
      }
    } catch (cmdr::exception::dup_error const &) {
    }
    if (r.chance(20)) app.treat_unknown_input_command_as_error(false);
    if (r.chance(20)) app.treat_unknown_input_flag_as_error(false);
    if (r.chance(15)) app.set_minimal_tab_stop(r.range(0, 90));
    if (r.chance(15)) app.set_alias_right_align(true);
    if (r.chance(10)) app.set_tail_line("tail");
    if (r.chance(10)) app.set_match_longest_first(false);
    // environment
    vector<string> envdesc;
    auto put = [&](string const &k, string const &v) {
      if (k.empty() || k.find('=') != string::npos) return;
      setenv(k.c_str(), v.c_str(), 1);
      envdesc.push_back(k + "=" + v);
    };
    static const vector<string> names{"ENV_A", "ENV_B", "ENV-C", "HELP", "VERSIONS", "VERSION_SIM", "VERBOSE", "QUIET", "DEBUG", "TRACE", "NO_COLOR", "PLAIN", "FEEL_LIKE", "SHELL_COMPLETION", "DRY_RUN", "STDOUT", "CMDR_DIM", "SHELL", "TERM", "APP", "APP_CLI", "APP_NAME", "EXE_NAME", "COLORTERM"};
    int ne = r.chance(50) ? 0 : r.range(1, 5);
    for (int i = 0; i < ne; i++) {
      if (r.chance(50)) put(r.pick(names), r.chance(10) ? "/bin/zsh" : any_value(r));
      else {
        string k = r.chance(25) && !xl.empty() ? "APP_CLI_" + r.pick(xl) : r.pick(w.flags)->key();
        for (char &c: k) c = c == '.' || c == '-' ? '_' : (char) toupper((unsigned char) c);
        put(k, any_value(r));
      }
    }
    if (r.chance(8)) put("SHELL", "/bin/zsh");
    int runs = r.range(1, 2);
    string hist;
    for (int k = 0; k < runs; k++) {
      ArgvOpt ao;
      ao.large = r.chance(8);
      ao.pct_unknown = 15, ao.pct_help = 30, ao.flags_max = 6, ao.pct_builtin = 45;
      auto av = gen_argv(r, *w.root, ao);
      // then break it
      int nm = r.chance(30) ? 0 : r.range(1, 5);
      static const vector<string> extra{"--help", "-h", "-hhh", "--version", "-V", "-#", "~~tree", "--tree", "~~debug", "~~debug~~debug", "~~debug~~debug~~debug", "-DDD", "~~cli", "--no-color", "-nc", "--shell-completion", "-hhncsc", "generate", "shell", "doc", "manual", "--bash", "--zsh", "--auto", "--stdout", "--dry-run", "-bet", "--feel-like", "help", "version", "print", "--version-sim", "--version-sim=", "--name", "-n", "--name=foo", "--drop", "-d", "/", "-", "~", "~~", "--", "--=", "-=", "--x=", "--start-number", "-sn", "-vvv", "/help", "/h"};
      for (int i = 0; i < nm; i++) {
        size_t at = 1 + r.below(av.size());
        switch (r.range(0, 6)) {
          case 0:
            if (at < av.size()) av.erase(av.begin() + (long) at);
            break;
          case 1: av.insert(av.begin() + (long) std::min(at, av.size()), any_value(r)); break;
          case 2:
            if (at < av.size() && !av[at].empty()) av[at].resize(r.below(av[at].size() + 1));
            break;
          case 3:
            if (at < av.size()) av[at].insert(r.below(av[at].size() + 1), any_value(r));
            break;
          case 4: av.insert(av.begin() + (long) std::min(at, av.size()), "--" + (r.chance(50) && !xl.empty() ? r.pick(xl) : r.pick(w.flags)->lng) + (r.chance(50) ? "=" : "") + any_value(r)); break;
          default: av.insert(av.begin() + (long) std::min(at, av.size()), r.pick(extra)); break;
        }
      }
      if (r.chance(1)) {
        av.clear();
        if (r.chance(50)) av.push_back("");
      }
      string what = "argv=" + vh::showv(av) + " env=" + vh::showv(envdesc) + " cols=" + std::to_string(g_cols) + " " + hist;
      if (vh::opt().verbose) {
        std::cerr << what << describe(*w.root) << std::endl;
      }
      Argv argv(av);
      vh::Capture cap;
      bool ok = true;
      string ex;
      try {
        app.run(argv.argc(), argv.argv());
      } catch (std::exception const &e) {
        ok = false, ex = e.what();
      } catch (...) {
        ok = false, ex = "?";
      }
      bool good = std::cout.good() && std::cerr.good();
      cap.stop();
      vh::count("runs");
      if (!cap.out.empty()) vh::count("runs_with_output");
      if (cap.out.find("Global Options") != string::npos) vh::count("help_screens");
      if (cap.out.find("All Commands:") != string::npos) vh::count("tree_screens");
      if (cap.out.find("Built by") != string::npos) vh::count("build_info_screens");
      if (cap.out.find("hits:") != string::npos) vh::count("debug_or_print_screens");
      if (cap.err.find("Unknown") != string::npos || cap.err.find("unknown") != string::npos) vh::count("unknown_diagnostics");
      if (cap.err.find("Exception caught") != string::npos) vh::count("reported_exceptions");
      if (cap.out.find("bash completion wrapper") != string::npos) vh::count("completion_scripts");
      if (!w.invs.empty()) vh::count("dispatches");
      vh::seen(shape(*w.root) + vh::showv(av) + vh::showv(envdesc));
      if (k == 0) vh::sample(what);
      VH_CHECK(ok, "C06:escaped-exception", ex << "; " << what);
      VH_CHECK(good, "C06:stream-broken", what);
      hist += " after " + vh::showv(av);
    }
  }

  // ---------------------------------------------------------------- C08
#if defined(VH_NO_INTERNALS)
  // only what the public operators offer, for code whose protected look-ups have another shape
  struct Peek {
    static string bare(string t) {
      for (int i = 0; i < 2; i++)
        if (!t.empty() && (t[0] == '-' || t[0] == '/')) t.erase(0, 1);
      return t;
    }
    static cmdr::opt::arg *search(cmdr::opt::cmd &c, string const &t) {
      cmdr::opt::arg *got = nullptr;
      c.walk_args([&](cmdr::opt::arg &a) {
        if (a.owner() == &c && (a.title_long() == t || a.title_short() == t || std::find(a.title_aliases().begin(), a.title_aliases().end(), t) != a.title_aliases().end())) got = got && got->title_long() == t ? got : &a;
      });
      return got;
    }
    static cmdr::opt::arg &flag(cmdr::opt::cmd &c, char const *t, bool ext) {
      auto &x = c[t];
      if (x.valid() || !ext) return x;
      auto *p = search(c, bare(t));
      return p ? *p : x;
    }
    static cmdr::opt::arg const *flagc(cmdr::opt::cmd const &c, string const &t, bool ext) {
      auto &x = flag(const_cast<cmdr::opt::cmd &>(c), t.c_str(), ext);
      return x.valid() ? &x : nullptr;
    }
    static cmdr::opt::cmd const *cmdc(cmdr::opt::cmd const &c, string const &t, bool ext) {
      auto &x = c(t.c_str(), ext);
      return x.valid() ? &x : nullptr;
    }
  };
#else
  struct Peek : cmdr::opt::cmd {
    static cmdr::opt::arg &flag(cmdr::opt::cmd &c, char const *t, bool ext) {
      cmdr::opt::arg &(cmdr::opt::cmd::*p)(const_chars, bool) = &Peek::find_flag;
      return (c.*p)(t, ext);
    }
    static cmdr::opt::arg const *flagc(cmdr::opt::cmd const &c, string const &t, bool ext) {
      cmdr::opt::arg const *(cmdr::opt::cmd::*p)(std::string const &, bool) const = &Peek::find_flag;
      return (c.*p)(t, ext);
    }
    static cmdr::opt::cmd const *cmdc(cmdr::opt::cmd const &c, string const &t, bool ext) {
      cmdr::opt::cmd const *(cmdr::opt::cmd::*p)(std::string const &, bool) const = &Peek::find_command;
      return (c.*p)(t, ext);
    }
  };
#endif
  void define_case(int64_t, Rng &r) {
    clean_env();
    World w;
    w.root = builtin_root();
    w.build();
    auto &app = *w.app;
    vector<C *> cmds;
    std::map<void const *, void *> where; // model object -> real object at definition time
    w.root->walk([&](C &c) {
      auto *rc  = real_cmd(app, &c);
      where[&c] = rc;
      if (!c.builtin || !c.owner || r.chance(20)) cmds.push_back(&c);
    });
    w.root->walk([&](C &c) {
      for (auto &f: c.flags) where[f.get()] = real_arg(app, f.get());
    });
    int ops = r.range(4, 26), rejected = 0;
    string log;
    // what the definition callbacks were told
    struct Added {
      void const *p, *owner;
      string key;
    };
    vector<Added> added_args, added_cmds;
    bool listening = r.chance(60);
    if (listening) {
      app.set_global_on_arg_added_handlers([&](cmdr::opt::arg *a) {
        added_args.push_back({a, a->owner(), a->dotted_key()});
        return Action::OK;
      });
      app.set_global_on_cmd_added_handlers([&](cmdr::opt::cmd *x) {
        added_cmds.push_back({x, x->owner(), x->dotted_key()});
        return Action::OK;
      });
    }
    static const string ab = "abc";
    auto title = [&](int n) {
      string s;
      for (int i = 0; i < n; i++) s += ab[r.below(3)];
      // any characters may follow the first one
      if (n > 1 && r.chance(20)) {
        static const string odd = "-_+09Z@%-";
        s[r.range(1, n - 1)] = odd[r.below(odd.size())];
      }
      return s;
    };
    vector<string> absent_l{"zz", "none", "x.y", "app", "app.cli"};
    auto verify = [&](string const &ctx) {
      w.root->walk([&](C &c) {
        auto *rc = (cmdr::opt::cmd *) where[&c];
        std::set<string> fl, fs, cl, csh;
        for (auto &f: c.flags) {
          auto *ra = (cmdr::opt::arg *) where[f.get()];
          auto &x  = (*rc)[f->lng.c_str()];
          VH_CHECK(&x == ra && x.valid(), "C08:flag-long", f->key() << " not found by its long title; " << ctx);
          VH_CHECK(&Peek::flag(*rc, ("--" + f->lng).c_str(), false) == ra, "C08:flag-dashes", f->key() << "; " << ctx);
          VH_CHECK(Peek::flagc(*rc, f->lng, false) == ra, "C08:flag-long-const", f->key() << "; " << ctx);
          VH_CHECK(Peek::flagc(*rc, "--" + f->lng, false) == ra, "C08:flag-dashes-const", f->key() << "; " << ctx);
          VH_CHECK(ra->owner() == rc, "C08:flag-owner", f->key() << "; " << ctx);
          VH_CHECK(&((cmdr::opt::cmd const &) *rc)[f->lng.c_str()] == ra, "C08:flag-long-const", f->key() << "; " << ctx);
          if (!c.owner) VH_CHECK(&app[f->lng] == ra && &((cmdr::app const &) app)[f->lng] == ra && &((cmdr::app const &) app)[f->lng.c_str()] == ra, "C08:flag-long-app", f->key() << "; " << ctx);
          VH_CHECK(ra->root() == &app && ((cmdr::opt::arg const *) ra)->root() == &app, "C08:flag-root", f->key() << "; " << ctx);
          VH_CHECK(ra->dotted_key() == f->key(), "C08:flag-key", f->key() << " has key " << ra->dotted_key() << "; " << ctx);
          VH_CHECK(ra->title_long() == f->lng && ra->title_short() == f->sht && ra->title_aliases() == f->al, "C08:flag-titles", f->key() << "; " << ctx);
          VH_CHECK(!canon(cmdr::get_store().get_raw(f->key())).empty(), "C08:flag-store", f->key() << "; " << ctx);
          fl.insert(f->lng);
          if (!f->sht.empty()) fs.insert(f->sht);
          for (auto &a: f->al) fl.insert(a);
        }
        auto fdef = [&](string const &t, void *x, bool allow_ext) {
          for (auto &f: c.flags) {
            if (where[f.get()] != x) continue;
            if (f->lng == t) return true;
            if (!allow_ext) return false;
            if (f->sht == t) return true;
            for (auto &a: f->al)
              if (a == t) return true;
          }
          return false;
        };
        std::set<string> probes(absent_l.begin(), absent_l.end());
        for (auto &s: fl) probes.insert(s);
        for (auto &s: fs) probes.insert(s);
        for (int i = 0; i < 6; i++) probes.insert(title(r.range(1, 3)));
        for (auto &t: probes) {
          bool lng = false;
          for (auto &f: c.flags) lng |= f->lng == t;
          auto &a = Peek::flag(*rc, t.c_str(), false);
          VH_CHECK(a.valid() == lng, "C08:flag-absent", "long look-up of '" << t << "' in " << c.key() << " finds " << a.title_long() << "; " << ctx);
          bool any = fl.count(t) || fs.count(t);
          auto &b  = Peek::flag(*rc, t.c_str(), true);
          VH_CHECK(b.valid() == any && (!any || fdef(t, &b, true)), "C08:flag-extensive", "extensive look-up of '" << t << "' in " << c.key() << " finds '" << b.title_long() << "' valid=" << b.valid() << " want " << any << "; " << ctx);
          auto *p = Peek::flagc(*rc, t, true);
          VH_CHECK((p != nullptr) == any && (!any || fdef(t, (void *) p, true)), "C08:flag-extensive-const", t << " in " << c.key() << "; " << ctx);
          auto &bd = Peek::flag(*rc, ("-" + t).c_str(), true);
          VH_CHECK(bd.valid() == any && (!any || fdef(t, &bd, true)), "C08:flag-extensive-dash", t << " in " << c.key() << "; " << ctx);
          auto *pd = Peek::flagc(*rc, "--" + t, true);
          VH_CHECK((pd != nullptr) == any && (!any || fdef(t, (void *) pd, true)), "C08:flag-extensive-dash-const", t << " in " << c.key() << "; " << ctx);
        }
        for (auto &s: c.subs) {
          auto *rs = (cmdr::opt::cmd *) where[s.get()];
          auto &x  = (*rc)(s->lng.c_str());
          VH_CHECK(&x == rs && x.valid(), "C08:cmd-long", s->key() << " not found by its long title; " << ctx);
          VH_CHECK(rs->owner() == rc, "C08:cmd-owner", s->key() << "; " << ctx);
          VH_CHECK(&((cmdr::opt::cmd const &) *rc)(s->lng.c_str()) == rs, "C08:cmd-long-const", s->key() << "; " << ctx);
          if (!c.owner) VH_CHECK(&app(s->lng) == rs && &((cmdr::app const &) app)(s->lng) == rs && &((cmdr::app const &) app)(s->lng.c_str()) == rs, "C08:cmd-long-app", s->key() << "; " << ctx);
          VH_CHECK(rs->root() == &app && ((cmdr::opt::cmd const *) rs)->root() == &app, "C08:cmd-root", s->key() << "; " << ctx);
          VH_CHECK(rs->title_long() == s->lng && rs->title_short() == s->sht && rs->title_aliases() == s->al, "C08:cmd-titles", s->key() << "; " << ctx);
          VH_CHECK(rs->dotted_key() == s->key(), "C08:cmd-key", s->key() << " has key " << rs->dotted_key() << "; " << ctx);
          cl.insert(s->lng);
          if (!s->sht.empty()) csh.insert(s->sht);
          for (auto &a: s->al) cl.insert(a);
        }
        std::set<string> cprobes(absent_l.begin(), absent_l.end());
        for (auto &s: cl) cprobes.insert(s);
        for (auto &s: csh) cprobes.insert(s);
        for (int i = 0; i < 6; i++) cprobes.insert(title(r.range(1, 3)));
        for (auto &t: cprobes) {
          bool lng = false;
          for (auto &s: c.subs) lng |= s->lng == t;
          bool any = cl.count(t) || csh.count(t);
          auto &a  = (*rc)(t.c_str());
          VH_CHECK(a.valid() == lng, "C08:cmd-absent", "look-up of command '" << t << "' in " << c.key() << " finds '" << a.title_long() << "'; " << ctx);
          auto good = [&](void const *x) {
            for (auto &s: c.subs)
              if (where[s.get()] == x) return s->lng == t || s->sht == t || std::find(s->al.begin(), s->al.end(), t) != s->al.end();
            return false;
          };
          auto &b = (*rc)(t.c_str(), true);
          VH_CHECK(b.valid() == any && (!any || good(&b)), "C08:cmd-extensive", "extensive look-up of command '" << t << "' in " << c.key() << " finds '" << b.title_long() << "' want " << any << "; " << ctx);
          auto *p = Peek::cmdc(*rc, t, true);
          VH_CHECK((p != nullptr) == any && (!any || good(p)), "C08:cmd-extensive-const", t << " in " << c.key() << "; " << ctx);
        }
      });
      // walking the definitions visits each of them once
      std::map<void const *, int> visits;
      size_t nflags = 0;
      app.walk_args([&](cmdr::opt::arg &a) { visits[&a]++; });
      w.root->walk([&](C &c) {
        for (auto &f: c.flags) {
          nflags++;
          VH_CHECK(visits[where[f.get()]] == 1, "C08:walk", f->key() << " visited " << visits[where[f.get()]] << " times; " << ctx);
        }
      });
      VH_CHECK(visits.size() == nflags, "C08:walk", visits.size() << " flags visited, want " << nflags << "; " << ctx);
    };
    for (int i = 0; i < ops; i++) {
      C *c     = r.pick(cmds);
      auto *rc = (cmdr::opt::cmd *) where[c];
      string l, s;
      vector<string> al;
      std::set<string> own;
      auto fresh = [&](int n) {
        string t;
        do t = title(n);
        while (own.count(t));
        own.insert(t);
        return t;
      };
      bool is_flag = r.chance(60);
      l            = fresh(r.range(1, 3));
      if (r.chance(70)) s = title(r.range(1, 2));
      for (int k = r.range(0, 2); k > 0; k--) al.push_back(fresh(r.range(1, 3)));
      if (r.chance(15)) {
        // borrow a title already taken
        static const vector<string> bf{"help", "verbose", "info", "D", "v", "generate", "g", "ver", "gen"};
        string t = r.pick(bf);
        int k    = r.range(0, 2);
        if (k == 0 && !own.count(t)) l = t;
        else if (k == 1)
          s = t;
        else if (!al.empty() && !own.count(t))
          al.back() = t;
      }
      bool clash = false;
      if (is_flag) {
        for (auto &f: c->flags) {
          auto taken = [&](string const &t) { return f->lng == t || std::find(f->al.begin(), f->al.end(), t) != f->al.end(); };
          clash |= taken(l) || (!s.empty() && f->sht == s);
          for (auto &a: al) clash |= taken(a);
        }
      } else
        for (auto &f: c->subs) {
          auto taken = [&](string const &t) { return f->lng == t || std::find(f->al.begin(), f->al.end(), t) != f->al.end(); };
          clash |= taken(l) || (!s.empty() && f->sht == s);
          for (auto &a: al) clash |= taken(a);
        }
      string what = string(is_flag ? "flag " : "command ") + l + "," + s + "," + vh::showv(al) + " in " + c->key();
      log += "\n  " + what + (clash ? " (clash)" : "");
      bool threw = false;
      string other;
      added_args.clear(), added_cmds.clear();
      try {
        if (is_flag) {
          cmdr::opt::opt o{(int) i};
          titles(o, l, s, al);
          if (r.chance(20)) o.group("g");
          attach(*rc, o, l);
        } else {
          cmdr::opt::sub_cmd o{};
          titles(o, l, s, al);
          attach(*rc, o, l);
        }
      } catch (cmdr::exception::dup_error const &) {
        threw = true;
      } catch (std::exception const &e) {
        threw = true, other = e.what();
      }
      VH_CHECK(other.empty(), "C08:wrong-exception", other << "; " << what << log);
      VH_CHECK(threw == clash, clash ? "C08:clash-accepted" : "C08:valid-rejected", what << log);
      if (threw) rejected++;
      if (threw != clash) return;
      if (listening) {
        bool good = added_args.size() == (size_t) (is_flag && !threw) && added_cmds.size() == (size_t) (!is_flag && !threw);
        if (good && !threw) {
          auto const &a = is_flag ? added_args[0] : added_cmds[0];
          good          = a.p == (is_flag ? (void const *) rc->last_added_arg() : (void const *) rc->last_added_command()) && a.owner == (void const *) rc && a.key == c->key() + "." + l;
        }
        VH_CHECK(good, "C08:added-callbacks", "the definition callbacks saw " << added_args.size() << " flags and " << added_cmds.size() << " commands; " << what << log);
        vh::count("definition_callbacks", (int64_t) (added_args.size() + added_cmds.size()));
      }
      if (!threw) {
        if (is_flag) {
          auto f   = std::make_unique<F>();
          f->lng = l, f->sht = s, f->al = al, f->type = T_INT, f->owner = c;
          where[f.get()] = rc->last_added_arg();
          c->flags.push_back(std::move(f));
        } else {
          auto x = std::make_unique<C>();
          x->lng = l, x->sht = s, x->al = al, x->owner = c;
          where[x.get()] = rc->last_added_command();
          cmds.push_back(x.get());
          c->subs.push_back(std::move(x));
        }
      }
      vh::count(threw ? "rejected" : "accepted");
      if (i % 4 == 3 || i == ops - 1 || threw) verify("after" + log);
    }
    vh::seen(log);
    if (rejected) vh::sample(log);
    // the surviving definitions still work on a command line, and rejected ones show up nowhere
    vector<F *> fl;
    w.root->walk([&](C &c) {
      for (auto &f: c.flags)
        if (!f->builtin && !c.builtin) fl.push_back(f.get());
    });
    if (fl.empty()) return;
    F *f = r.pick(fl);
    vector<string> av{"prog"};
    vector<C *> path;
    for (C *c = f->owner; c->owner; c = c->owner) path.insert(path.begin(), c);
    for (auto *c: path) av.push_back(c->lng);
    av.push_back("--" + f->lng);
    av.push_back("4711");
    av.push_back("--help");
    auto o = model_run(*w.root, av);
    if (!o.in_domain || o.kind != Outcome::HELP || o.hits.size() != 2) return;
    g_cols = 160;
    Argv argv(av);
    vh::Capture cap;
    app.run(argv.argc(), argv.argv());
    cap.stop();
    vh::count("runs");
    string got = canon(cmdr::get_store().get_raw(o.hits[0].f->key()));
    VH_CHECK(got == o.hits[0].canon, "C08:survivor-value", o.hits[0].f->key() << " reads " << got << " want " << o.hits[0].canon << " after" << log);
  }

  string strip_ansi(string const &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
        i += 2;
        while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
        continue;
      }
      o += s[i];
    }
    return o;
  }
  // ---------------------------------------------------------------- C09
  string transcript(World &w, vector<vector<string>> const &lines, vector<string> *raw = nullptr) {
    (void) raw;
    std::ostringstream os;
    auto &app = *w.app;
    auto dump = [&](char const *when) {
      os << when << "\n";
      auto &st = cmdr::get_store();
      st.walk_by_full_keys([&](std::pair<std::string, cmdr::vars::store::node_pointer> const &v) { os << " key " << v.first << "=" << canon(*v.second) << "\n"; });
      w.root->walk([&](C &c) {
        auto *rc = real_cmd(app, &c);
        os << " cmd " << c.key() << " found=" << (rc != nullptr);
        if (rc) os << " hits=" << rc->hit_count() << " title=" << rc->hit_title();
        os << "\n";
        std::set<string> tg;
        for (auto &f: c.flags) {
          auto *a = real_arg(app, f.get());
          os << " flag " << f->key() << " found=" << (a != nullptr);
          if (a) os << " hits=" << a->hit_count() << " title=" << a->hit_title() << " env=" << a->hit_env() << " special=" << a->hit_special() << " long=" << a->hit_long();
          os << "\n";
          if (!f->tg.empty()) tg.insert(f->tg);
        }
        static const vector<string> probe{"tgrp1", "tgrp2", "old"};
        for (auto &t: probe) tg.insert(t);
        if (rc)
          for (auto &t: tg) {
            string s = "<none>";
            try {
              s = rc->toggle_group(t);
            } catch (std::exception const &) {
            }
            os << " toggle " << c.key() << " " << t << "=" << s << "\n";
          }
      });
    };
    dump("defined");
    for (auto &av: lines) {
      Argv argv(av);
      int rc = -99;
      vh::Capture cap;
      try {
        rc = app.run(argv.argc(), argv.argv());
      } catch (std::exception const &e) {
        os << "escaped " << e.what() << "\n";
      }
      cap.stop();
      os << "run " << vh::showv(av) << " rc=" << rc << "\n";
      for (auto &i: w.invs) os << "  invoked " << i.c->key() << " " << vh::showv(i.rem) << "\n";
      os << "  events " << show_ev(w.events) << "\n";
      w.invs.clear(), w.events.clear();
      auto words = [&](string const &t) {
        std::stringstream ss(t);
        string x, o;
        while (ss >> x)
          if (x.find("0x") != 0) o += x + " ";
        return o;
      };
 // the debug screens list items in hash order, which is no promise: compared as a bag of words
      auto bag = [&](string const &t) {
        std::stringstream ss(words(t));
        vector<string> v{std::istream_iterator<string>(ss), {}};
        std::sort(v.begin(), v.end());
        string o;
        for (auto &x: v) o += x + " ";
        return o;
      };
      os << "  out " << bag(strip_ansi(cap.out)) << "\n  err " << words(strip_ansi(cap.err)) << "\n";
      dump("after run");
    }
    return os.str();
  }
  void decorate_tree(Rng &r, C &root, bool callbacks) {
    root.walk([&](C &c) {
      if (c.builtin) return;
      if (r.chance(30)) c.group = r.pick(vector<string>{"10.Aa", "20.Bb", "Cc"});
      for (auto &f: c.flags) {
        if (f->builtin) continue;
        if (f->type == T_BOOL && r.chance(40)) f->tg = r.pick(vector<string>{"tgrp1", "tgrp2", "old"});
        if (r.chance(10)) f->required = callbacks;
        if (r.chance(20)) f->group = r.pick(vector<string>{"10.Aa", "20.Bb", "Cc"});
      }
    });
  }
  struct Leaky {
    int loads = 0, posts = 0, pre = 0, post = 0, nothooked = 0, added = 0, cmdmatched = 0, cmdadded = 0, argmatched = 0, action = 0;
    string str() const { return VH_MSG("loads=" << loads << " posts=" << posts << " pre=" << pre << " post=" << post << " nothooked=" << nothooked << " added=" << added << " cmdmatched=" << cmdmatched << " cmdadded=" << cmdadded << " argmatched=" << argmatched << " action=" << action); }
  };
  void reset_case(int64_t, Rng &r) {
    clean_env();
    g_cols        = 120;
    uint64_t s2   = r.u64(), s1 = r.u64();
    int cycles    = r.range(1, 3);
    auto pipeit   = [&](std::function<string()> const &fn) {
      int fd = memfd_create("t", 0);
      pid_t p = fork();
      if (p == 0) {
        string s;
        try {
          s = fn();
        } catch (std::exception const &e) {
          s = string("exception ") + e.what();
        }
        if (write(fd, s.data(), s.size()) < 0) {}
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      string s = vh::Capture::rd(fd);
      close(fd);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        // let the supervisor see the sanitizer report of the grandchild
        string rep = vh::slurp(vh::opt().scratch + "/san." + std::to_string(p));
        unlink((vh::opt().scratch + "/san." + std::to_string(p)).c_str());
        vh::report_crash(vh::sh()->current.load(), VH_MSG("crash:" << (WIFEXITED(st) ? "exit=" : "signal=") << (WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)) << "\n" << rep));
        s = "crashed";
      }
      return s;
    };
    auto phase2 = [&](World &w) {
      Rng q(s2);
      GenOpt g;
      g.large = q.chance(8);
      g.overlap = q.chance(40), g.max_depth = 2, g.max_subs = 2;
      w.root = gen_app(q, g);
      decorate_tree(q, *w.root, q.chance(30));
      vector<vector<string>> lines;
      ArgvOpt ao;
      ao.large = q.chance(8);
      ao.pct_help = 10, ao.pct_unknown = 8, ao.pct_builtin = 15;
      for (int i = q.range(1, 3); i > 0; i--) {
        auto av = gen_argv(q, *w.root, ao);
        if (q.chance(15)) av.push_back("--help");
        // the built-in print/generate commands may write files; the rest is compared
        if (std::find(av.begin(), av.end(), "shell") != av.end()) continue;
        lines.push_back(av);
      }
      return lines;
    };
    auto hook = [&](World &w, bool define) {
      // the callbacks World::build installs, on the application that exists already
      w.index();
      w.hooks.invoke = [&w](C *c, cmdr::opt::cmd const &, string_array const &rem) {
        w.invs.push_back({c, rem});
        return c->rc;
      };
      w.hooks.on_flag = [&w](F *f, cmdr::opt::cmd const &, cmdr::opt::arg const &, string_array const &) {
        w.events.push_back({'H', f});
        return Action::OK;
      };
      w.app->set_global_on_arg_matched_handlers([&w](cmdr::opt::arg *a) {
        auto it = w.by_key.find(a->dotted_key());
        w.events.push_back({'M', it == w.by_key.end() ? nullptr : it->second});
        return Action::OK;
      });
      if (define) fill(*w.app, *w.root, &w.hooks);
    };
    string first;
    string fresh = pipeit([&] {
      World w;
      auto lines = phase2(w);
      w.app      = &new_app();
      hook(w, true);
      return transcript(w, lines);
    });
    string again = pipeit([&] {
      World w;
      auto lines = phase2(w);
      w.app      = &new_app();
      Leaky lk;
      for (int c = 0; c < cycles; c++) {
        Rng q(s1 + (uint64_t) c);
        World o;
        GenOpt g;
        g.large = q.chance(8);
        g.overlap = q.chance(40), g.max_depth = 2, g.max_subs = 2;
        o.root = gen_app(q, g);
        decorate_tree(q, *o.root, false);
        o.app = w.app;
        hook(o, true);
        auto &app = *w.app;
        // every kind of callback and setting the application holds
        if (q.chance(50)) app.set_global_on_loading_externals([&](cmdr::app &) { lk.loads++; });
        if (q.chance(50)) app.set_global_on_post_run_handlers([&](cmdr::app const &) { lk.posts++; });
        if (q.chance(50)) app.set_global_pre_invoke_handler([&](cmdr::opt::cmd const &, string_array const &) { return lk.pre++, 0; });
        if (q.chance(50)) app.set_global_post_invoke_handler([&](cmdr::opt::cmd const &, string_array const &) { return lk.post++, 0; });
        if (q.chance(50)) app.set_global_on_command_not_hooked([&](cmdr::opt::cmd const &, string_array const &) { return lk.nothooked++, 7; });
        if (q.chance(50)) app.set_global_on_arg_added_handlers([&](cmdr::opt::arg *) { lk.added++; return Action::OK; });
        if (q.chance(50)) app.set_global_on_cmd_matched_handlers([&](cmdr::opt::cmd *) { lk.cmdmatched++; return Action::OK; });
        if (q.chance(50)) app.set_global_on_cmd_added_handlers([&](cmdr::opt::cmd *) { lk.cmdadded++; return Action::OK; });
        if (q.chance(50)) app.set_global_on_arg_matched_handlers([&](cmdr::opt::arg *) { lk.argmatched++; return Action::OK; });
        if (q.chance(50)) app.register_action(static_cast<Action>(25), [&](cmdr::opt::types::parsing_context &, int, char *[]) { lk.action++; return 3; });
        if (q.chance(30)) app.treat_unknown_input_command_as_error(false);
        if (q.chance(30)) app.treat_unknown_input_flag_as_error(false);
        if (q.chance(50)) app.set("extra.value", 42);
        ArgvOpt ao;
        ao.large = r.chance(8);
        ao.pct_help = 10;
        for (int i = q.range(1, 3); i > 0; i--) {
          auto av = gen_argv(q, *o.root, ao);
          if (q.chance(15)) av.push_back("--help");
          if (std::find(av.begin(), av.end(), "shell") != av.end()) continue;
          Argv argv(av);
          vh::Capture cap;
          try {
            app.run(argv.argc(), argv.argv());
          } catch (std::exception const &) {
          }
          cap.stop();
          first += vh::showv(av) + " ";
        }
        app.reset();
      }
      string before = lk.str();
      hook(w, true);
      string t = transcript(w, lines);
      return t + (before == lk.str() ? "" : "STALE CALLBACKS RAN: " + before + " -> " + lk.str());
    });
    vh::count("transcript_bytes", (int64_t) fresh.size());
    vh::seen(vh::fnv(fresh));
    if (fresh == "crashed" || again == "crashed") return;
    // report the first differing line
    std::stringstream a(fresh), b(again);
    string la, lb, diff, kind;
    for (;;) {
      bool ga = (bool) std::getline(a, la), gb = (bool) std::getline(b, lb);
      if (!ga && !gb) break;
      vh::count("transcript_lines");
      if (!ga) la = "<end>";
      if (!gb) lb = "<end>";
      if (la != lb) {
        diff = "fresh: " + la.substr(0, 700) + " | after reset: " + lb.substr(0, 700);
        std::stringstream k(ga ? la : lb);
        k >> kind;
        break;
      }
    }
    VH_CHECK(diff.empty(), "C09:differs:" + kind, diff << " ; cycles=" << cycles);
    vh::sample("lines compared equal: " + fresh.substr(0, 400));
  }

  // ---------------------------------------------------------------- C10
  string nospace(string const &s) {
    string o;
    for (char c: s)
      if (!isspace((unsigned char) c)) o += c;
    return o;
  }
  size_t occurrences(string const &hay, string const &needle) {
    size_t n = 0, p = 0;
    while ((p = hay.find(needle, p)) != string::npos) n++, p++;
    return n;
  }
  struct Section {
    string head, text;
  };
  void help_case(int64_t, Rng &r) {
    clean_env();
    g_cols = rnd_cols(r), g_rows = 40;
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.max_depth = 3, g.max_subs = 4, g.max_flags = 5, g.values = true;
    w.root = gen_app(r, g);
    // unique titles so that a word of the screen identifies its item; groups that share numbers, or have none
    int uid = 0;
    static const vector<string> groups{"", "10.Alpha", "10.Beta", "20.Gamma", "Delta", "Epsilon", "0999.Zeta", "10.Alpha.Eta", "Theta", "7777.Iota", "3333"};
    auto word = [&](char const *p) {
      string s = string(p) + std::to_string(uid++) + "q";
      for (int k = r.chance(15) ? r.range(5, 40) : r.range(0, 6); k > 0; k--) s += (char) r.range('a', 'p');
      return s;
    };
    auto text = [&](int id) {
      // upper case only: never mistaken for a title
      string s = "D" + std::to_string(id) + "W";
      int n    = r.chance(30) ? r.range(20, 60) : r.range(0, 12);
      for (int i = 0; i < n; i++) {
        int l = r.chance(5) ? r.range(20, 160) : r.range(1, 9);
        s += ' ';
        for (int k = 0; k < l; k++) s += (char) r.range('A', 'Z');
      }
      if (r.chance(10)) s += ", (Z): [Y] 100%";
      return s + " E" + std::to_string(id) + "W.";
    };
    w.root->walk([&](C &c) {
      if (c.owner && !c.builtin) {
        c.lng = word("c");
        c.sht = r.chance(60) ? word("s") : "";
        for (auto &a: c.al) a = word("a");
        if (r.chance(85)) c.desc = text(uid++);
        if (r.chance(50)) {
          c.ex = "X" + std::to_string(uid++);
          for (int k = r.range(0, 3); k > 0; k--) c.ex += r.pick(vector<string>{" ~ RUN", "\n~ --TWICE", " NOTE", "\n\n$ ~ (X)"});
        }
        c.group  = r.pick(groups);
        c.hidden = r.chance(15);
      }
      for (auto &f: c.flags) {
        if (f->builtin) continue;
        f->lng = word("f");
        f->sht = r.chance(60) ? word("t") : "";
        for (auto &a: f->al) a = word("b");
        if (r.chance(85)) f->desc = text(uid++);
        f->group  = r.pick(groups);
        f->hidden = r.chance(15);
        if (r.chance(20)) f->placeholder = "PLHO" + std::to_string(uid++);
        if (f->type == T_STR || f->type == T_CSTR || f->type == T_VSTR) f->type = T_INT, f->def_text = "5", f->def_canon = "i:5";
        if (f->type == T_BOOL && f->group.empty() && r.chance(20)) f->tg = r.pick(vector<string>{"Kappa", "30.Lambda"});
        if (r.chance(20)) f->envs.push_back("EVN" + std::to_string(uid++) + "_");
      }
    });
    w.build();
    if (r.chance(15)) w.app->set_minimal_tab_stop(r.range(0, 80));
    if (r.chance(15)) w.app->set_alias_right_align(true);
    string tail, header;
    bool no_tail = r.chance(15), no_end = r.chance(20);
    if (r.chance(20)) w.app->set_tail_line(tail = "THE TAIL " + std::to_string(uid++));
    if (r.chance(10)) w.app->header((header = " HEADER " + std::to_string(uid++)).c_str());
    if (no_tail) w.app->set_no_tail_line();
    if (no_end) w.app->set_no_cmdr_endings();
    string const exe = std::filesystem::read_symlink("/proc/self/exe").filename().string();
    // where
    vector<C *> all;
    w.root->walk([&](C &c) {
      if (!c.builtin) all.push_back(&c);
    });
    int reps = r.range(1, 2);
    for (int rep = 0; rep < reps; rep++) {
      g_cols = rnd_cols(r);
      C *at  = r.pick(all);
      vector<C *> path;
      for (C *c = at; c->owner; c = c->owner) path.insert(path.begin(), c);
      vector<string> av{"prog"};
      bool tree = rep == 0 && r.chance(20), color = r.chance(50);
      bool show_hidden = !tree && rep == 0 && r.chance(15);
      int how          = tree ? 9 : r.range(0, rep ? 2 : 3); // option values stay in the store: after --help every further run shows a screen
      if (!color) av.push_back("--no-color");
      if (how == 3 && !show_hidden) av.push_back("help");
      for (auto *c: path) av.push_back(c->lng);
      if (tree) av.push_back("~~tree");
      else if (show_hidden)
        av.push_back(r.chance(50) ? "-hhh" : "--help--help");
      else if (how != 3)
        av.push_back(r.chance(50) ? "--help" : "-h");
      if (show_hidden && av.back() == "--help--help") av.back() = "-h", av.push_back("-hh");
      if (tree || show_hidden) reps = 1; // hit counts add up over the runs of one process
      Argv argv(av);
      vh::Capture cap;
      int rc = w.app->run(argv.argc(), argv.argv());
      cap.stop();
      vh::count("screens");
      if (tree) vh::count("tree_screens");
      string out = strip_ansi(cap.out);
      auto ctx   = [&] { return "argv=" + vh::showv(av) + " cols=" + std::to_string(g_cols) + describe(*w.root) + "\n" + out.substr(0, vh::opt().verbose ? 20000 : 2600); };
      VH_CHECK(rc == 0, "C10:rc", ctx());
      // sections: lines at column 0
      vector<Section> secs;
      {
        std::stringstream ss(out);
        string line;
        while (std::getline(ss, line)) {
          if (!line.empty() && line[0] != ' ' && line[0] != '-' && line[0] != '*') secs.push_back({line, ""});
          else if (!secs.empty())
            secs.back().text += line + "\n";
        }
      }
      auto section = [&](string const &head) -> Section * {
        Section *x = nullptr;
        int n      = 0;
        for (auto &s: secs)
          if (s.head == head) x = &s, n++;
        VH_CHECK(n == 1, "C10:section", "section '" << head << "' occurs " << n << " times; " << ctx());
        return x;
      };
      auto token = [&](string const &txt, string const &t) {
        // whole-word occurrences
        size_t n = 0, p = 0;
        while ((p = txt.find(t, p)) != string::npos) {
          auto w_ = [](char c) { return isalnum((unsigned char) c) || c == '_' || c == '-'; };
          bool l = p == 0 || !w_(txt[p - 1]), e = p + t.size() >= txt.size() || !w_(txt[p + t.size()]);
          if (l && e) n++;
          p += t.size();
        }
        return n;
      };
      // the item's titles all on one line, and that line under the item's group heading
      auto item = [&](Section &s, string const &lng, string const &sht, vector<string> const &al, string const &desc, string const &group, bool visible, string const &what, bool grp = true) {
        size_t n = token(s.text, lng);
        if (!visible) {
          size_t k = n + (sht.empty() ? 0 : token(s.text, sht));
          for (auto &a: al) k += token(s.text, a);
          VH_CHECK(k == 0, "C10:hidden-shown", what << " is hidden but named; " << ctx());
          vh::count("hidden_items_checked");
          return;
        }
        vh::count("items_checked");
        VH_CHECK(n == 1, n ? "C10:listed-twice" : "C10:not-listed", what << " is listed " << n << " times; " << ctx());
        if (n != 1) return;
        std::stringstream ss(s.text);
        string line, head, found;
        while (std::getline(ss, line)) {
          size_t b = line.find_first_not_of(" -");
          if (b != string::npos && line[b] == '[' && line.back() == ']' && b <= 8 && line.find(' ', b) == string::npos) head = line.substr(b + 1, line.size() - b - 2);
          if (b != string::npos && line[b] == '[' && line.find("System Management]") != string::npos) head = "System Management";
          if (token(line, lng)) {
            found = line;
            break;
          }
        }
        bool ok = true;
        size_t pos = found.find(lng);
        if (!sht.empty()) {
          ok &= token(s.text, sht) == 1 && token(found, sht) == 1 && found.find(sht, pos) != string::npos;
        }
        for (auto &a: al) ok &= token(s.text, a) == 1 && token(found, a) == 1;
        VH_CHECK(ok, "C10:titles", what << " misses a title on its line '" << found << "'; " << ctx());
        if (!desc.empty()) VH_CHECK(occurrences(nospace(s.text), nospace(desc)) == 1, "C10:description", "description of " << what << " is not shown completely: '" << desc << "'; " << ctx());
        if (grp && !group.empty()) { // what has no group carries no heading of its own
          string want = group;
          if (auto d = want.find('.'); d != string::npos) want = want.substr(d + 1);
          VH_CHECK(head == want, "C10:group", what << " is shown under heading '" << head << "' instead of '" << want << "'; " << ctx());
        }
      };
      if (tree) {
        auto *s = section("All Commands:");
        if (!s) continue;
        std::function<void(C &, bool)> rec = [&](C &c, bool vis) {
          for (auto &x: c.subs) {
            if (x->builtin) continue;
            bool v = vis && !x->hidden;
            item(*s, x->lng, x->sht, x->al, x->desc, x->group, v, "command " + x->key(), false);
            rec(*x, v);
          }
        };
        rec(*at, true);
        vh::seen(out);
        vh::sample(ctx());
        continue;
      }
      {
        auto count = [&](string const &head) {
          size_t n = 0;
          for (auto &x: secs) n += x.head == head;
          return n;
        };
        VH_CHECK(!secs.empty() && secs[0].head == (header.empty() ? "tst v1.2.3 by author. copyright" : "tst v1.2.3" + header), "C10:header", ctx());
        string ex = at->owner ? at->ex : "examples", desc = at->owner ? at->desc : "desc of app", ex2;
        for (char c: ex)
          if (c == '~') ex2 += exe;
          else
            ex2 += c;
        VH_CHECK(count("Description") == !desc.empty() && count("Examples") == !ex.empty(), "C10:about", "description or examples of " << at->key() << " missing or unasked for; " << ctx());
        if (!desc.empty())
          if (auto *x = section("Description")) VH_CHECK(nospace(x->text) == nospace(desc), "C10:about", "description of " << at->key() << "; " << ctx());
        if (!ex.empty())
          if (auto *x = section("Examples")) VH_CHECK(nospace(x->text) == nospace(ex2), "C10:examples", "examples of " << at->key() << " should read " << vh::show(ex2) << "; " << ctx());
        string usage = exe;
        for (auto *c: path) usage += " " + c->lng;
        if (auto *x = section("Usage")) VH_CHECK(nospace(x->text) == nospace(usage + " [options] [Tail Args]"), "C10:usage", "usage of " << at->key() << " should show " << usage << "; " << ctx());
        string line = tail.empty() ? "Type `" + exe + " --help` to get help screen (this screen)." : tail;
        VH_CHECK(count(line) == !no_tail, "C10:tail", "'" << line << "' is shown " << count(line) << " times; " << ctx());
        size_t ends = 0;
        for (auto &x: secs) ends += x.head.find("Powered by cmdr") == 0;
        VH_CHECK(ends == !no_end, "C10:ending", "the ending line is shown " << ends << " times; " << ctx());
      }
      if (auto *s = section("Commands")) {
        for (auto &x: at->subs) {
          bool v = show_hidden || !(x->hidden || (x->builtin && !x->owner->owner));
          if (x->builtin) {
            if (v) VH_CHECK(token(s->text, x->lng) >= 1, "C10:builtin-not-listed", x->key() << "; " << ctx());
            continue;
          }
          item(*s, x->lng, x->sht, x->al, x->desc, x->group, v, "command " + x->key());
        }
      }
      for (C *c = at; c; c = c->owner) {
        auto title_of = [&](C *x) {
          string t = x->lng;
          if (!x->sht.empty()) t += ", " + x->sht;
          for (size_t i = 0; i < x->al.size(); i++) t += (i ? "," : ", ") + x->al[i];
          return t;
        };
        Section *s = nullptr;
        if (c == at) s = section("Options");
        else if (c->owner)
          s = section("Parent Options of \"" + title_of(c) + "\"");
        else
          s = section("Global Options");
        if (!s) continue;
        for (auto &f: c->flags) {
          static const std::set<string> shown{"verbose", "quiet", "debug", "trace"};
          if (f->builtin) {
            bool v = show_hidden || shown.count(f->lng);
            size_t n = token(s->text, "--" + f->lng);
            VH_CHECK(v ? n == 1 : n == 0, "C10:builtin-flag", f->key() << " is listed " << n << " times; " << ctx());
            continue;
          }
          string desc = f->desc;
          if (!f->envs.empty()) desc += " (ENV: " + f->envs[0] + ")";
          item(*s, "--" + f->lng, f->sht.empty() ? "" : "-" + f->sht, [&] {
            vector<string> v;
            for (auto &a: f->al) v.push_back("--" + a);
            return v; }(), desc, f->group.empty() ? f->tg : f->group, show_hidden || !f->hidden, "flag " + f->key());
        }
      }
      vh::seen(out);
      vh::sample(ctx());
    }
  }

  // ---------------------------------------------------------------- C20 completion listings and scripts
  string slurp(string const &p, bool *there = nullptr) {
    std::ifstream f(p, std::ios::binary);
    if (there) *there = f.good();
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
  }
  void spit(string const &p, string const &s) {
    std::ofstream f(p, std::ios::binary);
    f << s;
  }
  string trimmed(string const &s) {
    size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t");
    return b == string::npos ? "" : s.substr(b, e - b + 1);
  }
  vector<string> lines_of(string const &t) {
    vector<string> v;
    std::stringstream ss(t);
    string l;
    while (std::getline(ss, l)) v.push_back(l);
    return v;
  }
  string joined(vector<string> const &v) {
    string s;
    for (auto &x: v) s += (s.empty() ? "" : ",") + x;
    return s;
  }
  void completion_case(int64_t id, Rng &r) {
    clean_env();
    string dir = vh::opt().scratch + "/cmpl" + std::to_string(id);
    std::filesystem::create_directories(dir);
    std::filesystem::current_path(dir);
    struct Gone {
      string d;
      ~Gone() {
        std::error_code ec;
        std::filesystem::current_path(vh::opt().scratch, ec);
        std::filesystem::remove_all(d, ec);
      }
    } gone{dir};
    g_cols = rnd_cols(r), g_rows = 40;
    int shell = r.range(0, 3); // bash, zsh, none, something else
    if (shell == 0) setenv("SHELL", "/bin/bash", 1);
    if (shell == 1) setenv("SHELL", r.chance(50) ? "/bin/zsh" : "/usr/local/bin/zsh", 1);
    if (shell == 3) setenv("SHELL", "/opt/zsh/fish", 1);
    bool zsh = shell == 1;
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.max_depth = 3, g.max_subs = 4, g.max_flags = 5;
    w.root  = gen_app(r, g);
    int uid = 0;
    auto word = [&](char const *p) {
      string s = string(p) + std::to_string(uid++) + "q";
      static const string odd = "-_+.";
      for (int k = r.chance(15) ? r.range(20, 90) : r.range(0, 6); k > 0; k--) s += r.chance(8) ? odd[r.below(odd.size())] : (char) r.range('a', 'p');
      return s;
    };
    auto text = [&] {
      string s = "Text " + std::to_string(uid++);
      static const string odd = ",|:;()[]{}\\/'\"$&*%#@!~^<>?=+-._ \t";
      for (int k = r.chance(20) ? r.range(100, 900) : r.range(0, 40); k > 0; k--) s += r.chance(25) ? odd[r.below(odd.size())] : (char) r.range('A', 'Z');
      return s + ".";
    };
    static const vector<string> groups{"", "10.Alpha", "10.Beta", "Delta", "0999.Zeta", "3333", "x."};
    w.root->walk([&](C &c) {
      if (c.owner && !c.builtin) {
        c.lng = word("c");
        c.sht = r.chance(60) ? word("s") : "";
        for (auto &a: c.al) a = word("a");
        if (r.chance(85)) c.desc = text();
        c.group  = r.pick(groups);
        c.hidden = r.chance(15);
      }
      for (auto &f: c.flags) {
        if (f->builtin) continue;
        f->lng = word("f");
        f->sht = r.chance(60) ? word("t") : "";
        for (auto &a: f->al) a = word("b");
        if (r.chance(85)) f->desc = text();
        f->group  = r.pick(groups);
        f->hidden = r.chance(15);
        if (r.chance(20)) f->placeholder = "PH" + std::to_string(uid++);
        if (f->type == T_STR || f->type == T_CSTR || f->type == T_VSTR) f->type = T_INT, f->def_text = "5", f->def_canon = "i:5";
        if (f->type == T_BOOL && r.chance(15)) f->tg = r.pick(vector<string>{"Kappa", "30.Lambda"});
        if (r.chance(20)) f->envs.push_back("EVN" + std::to_string(uid++) + "_");
      }
    });
    w.build();
    if (r.chance(15)) w.app->set_minimal_tab_stop(r.range(0, 80));
    if (r.chance(15)) w.app->set_alias_right_align(true);
    if (r.chance(15)) w.app->set_tail_line("a tail line");
    string script, safe;
    string exe = std::filesystem::read_symlink("/proc/self/exe").filename().string();
    bool gen   = r.chance(15);
    if (gen) {
      // the script comes first: after --help every further run of the process shows a screen
      bool dry = r.chance(40), named = r.chance(40), out = r.chance(80), autod = shell == 0 && r.chance(40);
      string name = named ? "nm" + std::to_string(id) + (r.chance(50) ? "-x" : "") : "";
      auto run    = [&](vector<string> av, vh::Capture &cap) {
        Argv argv(av);
        int rc = w.app->run(argv.argc(), argv.argv());
        cap.stop();
        return rc;
      };
      vector<string> av{"prog", r.chance(50) ? "generate" : "gen"};
      if (dry) av.push_back("--dry-run");
      if (out) av.push_back("--stdout");
      av.push_back(r.chance(50) ? "shell" : "completion");
      if (!autod) av.push_back("--bash");
      if (named) av.push_back("--name"), av.push_back(name);
      vh::Capture cap;
      int rc   = run(av, cap);
      auto ctx = [&] { return "argv=" + vh::showv(av) + " SHELL=" + std::to_string(shell) + "\nstderr=" + cap.err.substr(0, 300) + "\nstdout=" + cap.out.substr(0, 2500); };
      VH_CHECK(rc == 0, "C20:generate-rc", ctx());
      vector<string> files;
      for (auto &e: std::filesystem::directory_iterator(dir)) files.push_back(e.path().filename().string());
      VH_CHECK(files.size() == (dry ? 0u : 1u), "C20:script-file", "files written: " << vh::showv(files) << "; " << ctx());
      VH_CHECK(out || cap.out.empty(), "C20:script-printed", ctx());
      if (out) {
        script = cap.out;
        if (!script.empty()) script.pop_back();
      }
      if (!dry && files.size() == 1) {
        string text_ = slurp(dir + "/" + files[0]);
        if (out) VH_CHECK(text_ == script, "C20:script-file", "the file differs from what was printed; " << ctx());
        script = text_, safe = files[0];
        string base = named ? name : exe;
        auto plain  = [](string t) {
          std::replace(t.begin(), t.end(), '-', '_');
          return t;
        };
        VH_CHECK(plain(safe) == plain(base), "C20:script-name", "written to '" << safe << "', the name is '" << base << "'; " << ctx());
      }
      vh::count("scripts");
      if (!script.empty()) {
        VH_CHECK(script.find("%{") == string::npos, "C20:placeholder", ctx());
        VH_CHECK(script.find("v1.2.3") != string::npos && script.find(exe) != string::npos, "C20:script-text", ctx());
        size_t at = script.find("complete -F _cmdr_cmd_");
        VH_CHECK(at != string::npos, "C20:script-text", ctx());
        if (at != string::npos) {
          string rest = script.substr(at + 22, script.find('\n', at) - at - 22);
          size_t sp   = rest.find(' ');
          string fn   = rest.substr(0, sp);
          VH_CHECK(sp != string::npos && rest.substr(sp + 1) == exe && (safe.empty() || fn == safe), "C20:script-text", rest << "; " << ctx());
          safe = fn;
        }
      }
      if (!dry && r.chance(40)) {
        auto av2 = av;
        av2.push_back("--drop");
        vh::Capture cap2;
        rc = run(av2, cap2);
        bool there;
        slurp(dir + "/" + safe, &there);
        VH_CHECK(rc == 0 && !there, "C20:drop", "file " << safe << (there ? " still there" : "") << " after " << vh::showv(av2) << " " << cap2.err);
        vh::count("dropped_scripts");
      }
    }
    vector<C *> all;
    w.root->walk([&](C &c) {
      if (!c.builtin) all.push_back(&c);
    });
    int help_hits = 0;
    for (int rep = 0, reps = r.range(1, 2); rep < reps; rep++) {
      g_cols = rnd_cols(r);
      C *at  = r.pick(all);
      vector<C *> path;
      for (C *c = at; c->owner; c = c->owner) path.insert(path.begin(), c);
      vector<string> av{"prog"};
      for (auto *c: path) av.push_back(r.chance(70) || c->sht.empty() ? c->lng : c->sht);
      bool color = false;
      switch (r.range(0, 4)) {
        case 0: av.push_back("-h"), av.push_back("-ncsc"), help_hits += 1; break;
        case 1: av.push_back("--shell-completion"), av.push_back("--help"), av.push_back("--no-color"), help_hits += 1; break;
        case 2: av.push_back("--help"), av.push_back("-sc"), color = true, help_hits += 1; break;
        default: av.push_back("--help"), av.push_back("-hhncsc"), help_hits += 3; break;
      }
      bool hidden = help_hits > 2;
      Argv argv(av);
      vh::Capture cap;
      int rc = w.app->run(argv.argc(), argv.argv());
      cap.stop();
      vh::count(zsh ? "zsh_listings" : "listings");
      string out = color ? strip_ansi(cap.out) : cap.out;
      auto ctx   = [&] { return "argv=" + vh::showv(av) + " SHELL=" + std::to_string(shell) + " cols=" + std::to_string(g_cols) + describe(*w.root) + "\n" + out.substr(0, vh::opt().verbose ? 20000 : 2600); };
      VH_CHECK(rc == 0, "C20:rc", ctx());
      // what has to be there: key -> description ("*": a builtin, not compared)
      std::multimap<string, string> want;
      std::set<string> banned;
      auto esc = [](string const &t) {
        string o;
        for (char c: t) {
          if (strchr("[]:()", c)) o += '\\';
          o += c;
        }
        return o;
      };
      static const std::set<string> shown{"verbose", "quiet", "debug", "trace"};
      for (auto &x: at->subs) {
        bool v = hidden || !(x->hidden || (x->builtin && !x->owner->owner));
        if (!v) continue;
        if (zsh) {
          want.insert({x->lng, x->builtin ? "*" : esc(x->desc)});
          continue;
        }
        vector<string> t{x->lng};
        if (!x->sht.empty()) t.push_back(x->sht);
        for (auto &a: x->al) t.push_back(a);
        want.insert({joined(t), x->builtin ? "*" : x->desc});
      }
      for (C *c = at; c; c = c->owner)
        for (auto &f: c->flags) {
          bool v = hidden || (f->builtin ? shown.count(f->lng) > 0 : !f->hidden);
          if (!v) continue;
          if (zsh) {
            want.insert({"--" + f->lng, f->builtin ? "*" : esc(f->desc)});
            if (!f->sht.empty()) want.insert({"-" + f->sht, f->builtin ? "*" : esc(f->desc)});
            continue;
          }
          vector<string> t{"--" + f->lng + (f->placeholder.empty() ? "" : "=" + f->placeholder)};
          if (!f->sht.empty()) t.push_back("-" + f->sht);
          for (auto &a: f->al) t.push_back("--" + a);
          string d = f->desc;
          if (!f->envs.empty()) d += " (ENV: " + f->envs[0] + ")";
          want.insert({joined(t), f->builtin ? "*" : d});
        }
      vector<string> words;
      for (auto &l: lines_of(out)) {
        string key, d;
        if (zsh) {
          size_t e = l.find(l[0] == '-' ? '[' : ':');
          VH_CHECK(e != string::npos && (l[0] != '-' || l.back() == ']'), "C20:zsh-form", vh::show(l) << "; " << ctx());
          if (e == string::npos) continue;
          key = l.substr(0, e), d = l.substr(e + 1);
          if (l[0] == '-' && !d.empty()) d.pop_back();
        } else {
          size_t e = l.find('|');
          VH_CHECK(e != string::npos, "C20:form", "a line without '|': " << vh::show(l) << "; " << ctx());
          if (e == string::npos) continue;
          vector<string> t;
          std::stringstream ss(l.substr(0, e));
          string x;
          while (std::getline(ss, x, ',')) {
            x = trimmed(x);
            if (!x.empty()) t.push_back(x), words.push_back(x);
          }
          key = joined(t), d = l.substr(e + 1);
        }
        auto [b, e] = want.equal_range(key);
        bool ok     = false;
        for (auto it = b; it != e; ++it) {
          bool same = it->second == "*" || d == it->second;
          if (!same && !zsh && key[0] == '-' && d.compare(0, it->second.size(), it->second) == 0) {
            string rest = d.substr(it->second.size());
            same        = rest.compare(0, 9, " [DEFAULT") == 0 && rest.back() == ']';
          }
          if (same) {
            ok = true;
            want.erase(it);
            break;
          }
        }
        if (b == e) VH_CHECK(false, "C20:extra", "line " << vh::show(l) << " is for nothing that is available here; " << ctx());
        else
          VH_CHECK(ok, "C20:description", "line " << vh::show(l) << " should say " << vh::show(b->second) << "; " << ctx());
        vh::count("listed_items");
      }
      for (auto &[k, d]: want) VH_CHECK(false, "C20:missing", "'" << k << "' is not listed; " << ctx());
      vh::seen(out);
      vh::sample(ctx());
      // the generated script, run by a real shell, offers the words of this listing
      if (!script.empty() && !zsh && !color && !words.empty()) {
        string cur = r.chance(30) ? "" : r.pick(words);
        if (!cur.empty()) cur.resize(r.below(cur.size() + 1));
        spit(dir + "/script", script);
        spit(dir + "/listing", out);
        string prev = path.empty() ? exe : av[path.size()];
        std::ostringstream sh;
        sh << "_get_comp_words_by_ref() { cur='" << cur << "'; prev='" << prev << "'; words=(" << exe;
        for (size_t i = 0; i < path.size(); i++) sh << " " << av[i + 1];
        sh << " '" << cur << "'); }\n"
           << exe << "() { printf '%s\\n' \"$*\" >> calls; cat listing; }\n"
           << "source ./script\n"
           << "complete -p " << exe << " > registered || exit 3\n"
           << "_cmdr_cmd_" << safe << "\n"
           << "printf '%s\\n' \"${COMPREPLY[@]}\" > reply\n";
        spit(dir + "/drive.sh", sh.str());
        for (auto *f: {"calls", "reply", "registered"}) std::filesystem::remove(dir + "/" + f);
        int st = system("bash --norc --noprofile drive.sh > drive.log 2>&1 < /dev/null");
        string log = slurp(dir + "/drive.log");
        VH_CHECK(st == 0, "C20:script-runs", "exit status " << st << "\n" << log << ctx());
        vector<string> want_words, got = lines_of(slurp(dir + "/reply"));
        for (auto &x: words)
          if (x.compare(0, cur.size(), cur) == 0) want_words.push_back(x);
        if (got.size() == 1 && got[0].empty()) got.clear();
        std::sort(want_words.begin(), want_words.end());
        std::sort(got.begin(), got.end());
        VH_CHECK(got == want_words, "C20:offers", "completing '" << cur << "' after " << vh::showv(av) << " offers " << vh::showv(got) << ", available " << vh::showv(want_words) << "\n" << log << ctx());
        string call;
        for (size_t i = 0; i < path.size(); i++) call += av[i + 1] + " ";
        auto calls = lines_of(slurp(dir + "/calls"));
        VH_CHECK(!calls.empty() && calls[0].compare(0, call.size() + 6, call + "--help") == 0, "C20:asks", "the script asked for " << vh::showv(calls) << "\n" << log << ctx());
        vh::count("completions_in_bash");
      }
    }
  }

  // ---------------------------------------------------------------- C22 suggestions and feel-like mode
  double ref_jaro(string const &a, string const &b) {
    if (a.empty() || b.empty()) return 0;
    if (a == b) return 1;
    int n = (int) a.size(), m = (int) b.size(), win = std::max(n, m) / 2 - 1;
    vector<char> ub(b.size());
    string ma, mb;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        if (!ub[(size_t) j] && a[(size_t) i] == b[(size_t) j] && std::abs(i - j) <= win) {
          ub[(size_t) j] = 1;
          ma += a[(size_t) i];
          break;
        }
    for (size_t j = 0; j < b.size(); j++)
      if (ub[j]) mb += b[j];
    double c = (double) ma.size(), t = 0;
    if (ma.empty()) return 0;
    for (size_t i = 0; i < ma.size(); i++) t += ma[i] != mb[i];
    return (c / n + c / m + (c - t / 2) / c) / 3;
  }
  string misspell(Rng &r, string s) {
    for (int e = r.range(1, 3); e > 0 && s.size() > 2; e--) {
      size_t p = r.below(s.size());
      switch (r.below(4)) {
        case 0: s.erase(p, 1); break;
        case 1: s.insert(p, 1, (char) r.range('a', 'z')); break;
        case 2: s[p] = (char) r.range('a', 'z'); break;
        default: std::swap(s[p], s[r.below(s.size())]);
      }
    }
    return s;
  }
  void suggest_case(int64_t, Rng &r) {
    clean_env();
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.max_depth = 2, g.max_subs = 5, g.max_flags = 4, g.values = false;
    w.root = gen_app(r, g);
    // long similar titles, so that several candidates pass the threshold
    static const vector<string> stems{"deploy", "configure", "analyse", "microservice", "list-entries", "kubernetes", "watch", "generation"};
    w.root->walk([&](C &c) {
      std::set<string> used;
      auto fresh = [&](string const &stem) {
        string t = stem;
        do {
          t = r.chance(70) ? misspell(r, r.chance(30) ? t : stem) : t + (char) r.range('a', 'z');
        } while (t.size() < 3 || t[0] == '-' || used.count(t));
        used.insert(t);
        return t;
      };
      for (auto &s: c.subs) {
        used.insert(s->lng), used.insert(s->sht);
        for (auto &a: s->al) used.insert(a);
      }
      string stem = r.pick(stems);
      for (auto &s: c.subs) {
        if (s->builtin) continue;
        if (r.chance(20)) stem = r.pick(stems);
        s->lng = fresh(stem);
        if (r.chance(30)) s->sht = fresh(stem);
        for (auto &a: s->al) a = fresh(stem);
      }
      stem = r.pick(stems);
      std::set<string> fu;
      for (auto &f: c.flags) {
        if (f->builtin) continue;
        f->lng = "zz" + fresh(stem); // no builtin flag title is a prefix of it
        for (auto &a: f->al) a = "zz" + fresh(stem);
      }
    });
    w.build();
    int how = r.chance(50) ? r.range(1, 3) : 0; // feel-like: 1 flag, 2 environment, 3 method
    vector<string> av{"prog"};
    if (how == 2) setenv("FEEL_LIKE", r.chance(50) ? "1" : "true", 1);
    if (how == 3) w.app->enable_feel_like_mode();
    C *cur  = w.root.get();
    int typ = r.chance(30) ? 1 : 0; // 1: an unknown flag
    if (how == 1) av.push_back(r.chance(50) ? "--feel-like" : "-bet");
    vector<string> exact{"prog"}; // the same command line spelt as the model expects it
    exact = av;
    vector<C *> chain{cur};
    std::multiset<string> want;
    string bad;
    bool dead = false, tie = false, picked = false;
    for (int depth = 0; depth < 3 && !cur->subs.empty() && !dead; depth++) {
      bool err = !typ && r.chance(60);
      C *to    = r.pick(cur->subs).get();
      if (to->builtin && r.chance(80)) to = r.pick(cur->subs).get();
      string word = to->lng;
      if (err) {
        word = r.chance(10) ? "no-such-word" : misspell(r, r.chance(60) ? to->lng : to->al.empty() ? to->lng : r.pick(to->al));
        if (word.empty() || strchr("-/~", word[0])) word = "x" + word;
        if (cur->sub(word)) err = false, to = cur->sub(word);
      } else if (r.chance(30) && !to->sht.empty())
        word = to->sht, to = cur->sub(word);
      av.push_back(word);
      if (err) {
        std::multiset<string> hits;
        double best = -1;
        C *pick     = nullptr;
        for (auto &s: cur->subs) {
          auto test = [&](string const &t) {
            double d = ref_jaro(word, t);
            if (std::fabs(d - 0.83) < 1e-6) tie = true;
            if (d < 0.83) return;
            hits.insert(t);
            if (std::fabs(d - best) < 1e-9 && pick != s.get()) tie = tie || how != 0;
            if (d > best) best = d, pick = s.get();
          };
          test(s->lng), test(s->sht);
          for (auto &a: s->al) test(a);
        }
        if (how && pick) {
          exact.push_back(pick->lng);
          cur    = pick;
          picked = true;
        } else
          dead = true, bad = word, want = hits;
      } else {
        exact.push_back(to->lng);
        cur = to;
      }
      chain.push_back(cur);
    }
    if (tie) return;
    if (typ) {
      // a long flag that starts like no known one
      vector<F *> all;
      for (auto *c: chain)
        for (auto &f: c->flags) all.push_back(f.get());
      F *f = all[r.below(all.size())];
      string t, dummy;
      for (int k = 0; k < 20; k++) {
        t = misspell(r, r.chance(70) || f->al.empty() ? f->lng : r.pick(f->al));
        if (!t.empty() && t[0] != '-' && t.find('=') == string::npos && !find_flag(chain, 1, t, dummy)) break;
        t.clear();
      }
      if (t.empty()) return;
      bad = t;
      for (auto *c: chain)
        for (auto &ff: c->flags) {
          auto test = [&](string const &x) {
            double d = ref_jaro(t, x);
            if (std::fabs(d - 0.83) < 1e-6) tie = true;
            if (d >= 0.83) want.insert("--" + x);
          };
          test(ff->lng);
          for (auto &a: ff->al) test(a);
        }
      if (tie) return;
      av.push_back("--" + t);
      dead = true;
    }
    if (!dead && cur->builtin) return; // the builtin commands print things of their own
    Argv argv(av);
    vh::Capture cap;
    w.app->run(argv.argc(), argv.argv());
    cap.stop();
    auto ctx = [&] { return "argv=" + vh::showv(av) + " feel-like by " + (how == 1 ? "flag" : how == 2 ? "environment" : how == 3 ? "method" : "nothing") + describe(*w.root) + "\n stderr=" + cap.err.substr(0, 600); };
    vh::count(typ ? "unknown_flag" : dead ? "unknown_command" : picked ? "feel_like_picked" : "all_known");
    if (dead) {
      std::multiset<string> got;
      std::istringstream is(cap.err);
      string line, word;
      bool named = false;
      while (std::getline(is, line)) {
        std::istringstream ls(line);
        if (line.compare(0, 6, "   - \"") == 0) {
          ls.ignore(5);
          ls >> std::quoted(word);
          got.insert(word);
        } else if (line.compare(0, 8, "Unknown ") == 0) {
          ls.ignore(line.find(':') + 2 > line.size() ? 0 : (long) line.find(':') + 2);
          ls >> std::quoted(word);
          named = word == (typ ? "--" + bad : bad);
        }
      }
      vh::count("suggestions", (int64_t) want.size());
      VH_CHECK(named, "C22:diagnostic", "the diagnostic does not name " << bad << "; " << ctx());
      VH_CHECK(got == want, typ ? "C22:flag-suggestions" : "C22:suggestions", "suggested " << vh::showv(vector<string>(got.begin(), got.end())) << ", at or above the threshold are " << vh::showv(vector<string>(want.begin(), want.end())) << " for " << bad << "; " << ctx());
      VH_CHECK(w.invs.empty(), "C22:handler-ran", ctx());
    } else {
      Outcome o = model_run(*w.root, exact);
      if (o.in_domain && o.kind == Outcome::INVOKE)
        VH_CHECK(w.invs.size() == 1 && w.invs[0].c == o.leaf, "C22:feel-like", "expected the handler of " << o.leaf->key() << ", ran " << (w.invs.empty() ? "none" : w.invs[0].c->key()) << "; " << ctx());
      else
        VH_CHECK(w.invs.empty(), "C22:handler-ran", ctx());
    }
    if (dead || picked) vh::seen(shape(*w.root) + vh::showv(av));
    if (picked) vh::sample(ctx());
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) {
    auto const &m = vh::opt().mode;
    if (m == "C06") anything_case(c, r);
    else if (m == "C08") define_case(c, r);
    else if (m == "C09") reset_case(c, r);
    else if (m == "C10") help_case(c, r);
    else if (m == "C20") completion_case(c, r);
    else if (m == "C22") suggest_case(c, r);
  });
}
