// Drives the real command-line engine with random applications and command lines; the oracle is the independent
// model in cli_model.hpp. One mode per property.
#include "cli_world.hpp"

namespace {
  // C01, C02, C03 share one exercise; each mode checks its own property on it.
  void dispatch_case(int64_t, Rng &r) {
    clean_env();
    string mode = vh::opt().mode;
    World w;
    GenOpt g;
    g.values  = mode != "C01" || r.chance(60);
    g.overlap = mode == "C02" ? r.chance(80) : r.chance(35);
    if (mode == "C03") g.max_depth = 2;
    g.large = r.chance(10);
    if (g.large) vh::count("large_apps");
    w.root = gen_app(r, g);
    w.read_store = mode == "C03";
    w.root->walk([&](C &c) { c.onhit = !c.builtin && r.chance(40); });
    std::map<F *, std::pair<bool, bool>> form; // hit by a long / special spelling so far
    w.build();
    ModelOpt mo;
    if (r.chance(mode == "C03" ? 5 : 12)) w.app->treat_unknown_input_flag_as_error(mo.unknown_flag_err = false);
    if (r.chance(mode == "C03" ? 5 : 12)) w.app->treat_unknown_input_command_as_error(mo.unknown_cmd_err = false);
    if (mode == "C02" && r.chance(15)) {
      w.app->set_match_longest_first(mo.longest = false);
      vh::count("shortest_first_apps");
    }
    ArgvOpt ao;
    ao.large = g.large;
    if (mode == "C02") ao.flags_max = 7, ao.pct_unknown = 8;
    if (mode == "C03") ao.flags_max = 6, ao.pct_unknown = 2, ao.pct_builtin = 8, ao.pct_help = 0, ao.pct_stop_early = 2;
    if (!mo.unknown_flag_err || !mo.unknown_cmd_err) ao.pct_unknown = 25;
    int runs = mode == "C03" ? 1 : r.range(1, 3);
    std::map<string, string> expect_val;
    string history;
    for (int k = 0; k < runs; k++) {
      vector<string> av = gen_argv(r, *w.root, ao);
      Outcome o         = model_run(*w.root, av, mo);
      if (!o.in_domain) {
        vh::count("discarded_out_of_domain");
        continue;
      }
      if (o.kind == Outcome::BUILTIN && o.leaf->lng == "shell") continue;
      std::map<F *, int> before;
      for (auto *f: w.flags)
        if (auto *a = real_arg(*w.app, f)) before[f] = a->hit_count();
      std::map<C *, int> cbefore;
      w.root->walk([&](C &c) {
        if (c.owner)
          if (auto *x = real_cmd(*w.app, &c)) cbefore[&c] = x->hit_count();
      });
      w.invs.clear();
      w.cmd_hits.clear();
      w.events.clear();
      w.in_handler.clear();
      Argv argv(av);
      vh::Capture cap;
      int rc = w.app->run(argv.argc(), argv.argv());
      cap.stop();
      vh::count("runs");
      vh::count(kname(o.kind));
      vh::count("hits", (int64_t) o.hits.size());
      auto ctx = [&] { return "argv=" + vh::showv(av) + (history.empty() ? "" : " after " + history) + " expected=" + kname(o.kind) + (o.leaf ? " leaf=" + o.leaf->key() : "") + describe(*w.root) + "\n stderr=" + cap.err.substr(0, 400); };
      if (o.kind == Outcome::INVOKE || o.hits.size() > 1) vh::seen(mode + shape(*w.root) + vh::showv(av));
      if (o.kind == Outcome::INVOKE && o.hits.size() > 1) vh::sample("argv=" + vh::showv(av) + describe(*w.root));

      if (mode == "C01") {
        if (o.kind == Outcome::INVOKE) {
          VH_CHECK(w.invs.size() == 1, "C01:handler-count", "handlers run: " << w.invs.size() << " (want 1); " << ctx());
          if (w.invs.size() == 1) {
            VH_CHECK(w.invs[0].c == o.leaf, "C01:wrong-handler", "handler of " << w.invs[0].c->key() << " ran; " << ctx());
            VH_CHECK(w.invs[0].rem == o.remains, "C01:remains", "handler got " << vh::showv(w.invs[0].rem) << " want " << vh::showv(o.remains) << "; " << ctx());
            VH_CHECK(rc == o.leaf->rc, "C01:rc", "run returned " << rc << " handler returned " << o.leaf->rc << "; " << ctx());
          }
        } else {
          VH_CHECK(w.invs.empty(), "C01:handler-ran", "handler of " << (w.invs.empty() ? "" : w.invs[0].c->key()) << " ran; " << ctx());
          if (o.kind == Outcome::UNKNOWN_FLAG || o.kind == Outcome::UNKNOWN_CMD)
            VH_CHECK(cap.err.find("nknown") != string::npos, "C01:no-diagnostic", ctx());
        }
        // the definition that matched each word records it
        vector<CmdHit> want_hits;
        std::map<C *, string> matched;
        for (size_t i = 1; i < o.path.size(); i++) {
          matched[o.path[i]] = av[(size_t) o.path_at[i - 1]];
          if (o.path[i]->onhit) want_hits.push_back({o.path[i], vector<string>(av.begin() + o.path_at[i - 1] + 1, av.end())});
        }
        w.root->walk([&](C &c) {
          if (!c.owner) return;
          auto *x = real_cmd(*w.app, &c);
          bool on = matched.count(&c) > 0;
          VH_CHECK(x && x->hit_count() - cbefore[&c] == (on ? 1 : 0), "C01:cmd-hit-count", c.key() << " gained " << (x ? x->hit_count() - cbefore[&c] : -1) << " hits; " << ctx());
          if (x && on) VH_CHECK(x->hit_title() == matched[&c], "C01:cmd-hit-title", c.key() << " hit title " << vh::show(x->hit_title()) << "; " << ctx());
        });
        auto show = [](vector<CmdHit> const &v) {
          string s;
          for (auto &x: v) s += x.c->key() + vh::showv(x.rest) + " ";
          return s;
        };
        VH_CHECK(w.cmd_hits == want_hits, "C01:cmd-hit-callbacks", "on-hit callbacks of commands " << show(w.cmd_hits) << " want " << show(want_hits) << "; " << ctx());
        vh::count("cmd_hit_callbacks", (int64_t) want_hits.size());
      }
      if (mode == "C02") {
        std::map<F *, int> want;
        std::map<F *, string> title;
        vector<Event> ev;
        for (auto &h: o.hits) {
          want[h.f]++, title[h.f] = h.title;
          form[h.f].first |= h.kind > 0, form[h.f].second |= h.kind == 2;
          ev.push_back({'M', h.f, {}});
          if (h.f->onhit) ev.push_back({'H', h.f, vector<string>(av.begin() + h.next, av.end())});
        }
        for (auto *f: w.flags) {
          auto *a = real_arg(*w.app, f);
          if (!a) {
            VH_CHECK(false, "C02:flag-lost", f->key());
            continue;
          }
          int d = a->hit_count() - before[f];
          VH_CHECK(d == want[f], want[f] ? "C02:hit-count" : "C02:stray-hit", f->key() << " gained " << d << " hits, want " << want[f] << "; " << ctx());
          if (want[f]) VH_CHECK(a->hit_title() == title[f], "C02:hit-title", f->key() << " hit_title=" << vh::show(a->hit_title()) << " want " << vh::show(title[f]) << "; " << ctx());
          VH_CHECK(a->hit_long() == form[f].first && a->hit_special() == form[f].second, "C02:hit-form", f->key() << " says long=" << a->hit_long() << " special=" << a->hit_special() << " want " << form[f].first << " " << form[f].second << "; " << ctx());
        }
        VH_CHECK(ev == w.events, "C02:callbacks", "callbacks " << show_ev(w.events) << " want " << show_ev(ev) << "; " << ctx());
        if (o.kind == Outcome::UNKNOWN_FLAG) {
          VH_CHECK(cap.err.find("nknown") != string::npos, "C02:no-diagnostic", ctx());
          VH_CHECK(w.invs.empty(), "C02:handler-after-unknown", ctx());
        }
      }
      if (mode == "C03") {
        for (auto &h: o.hits) expect_val[h.f->key()] = h.canon;
        if (o.kind == Outcome::INVOKE) {
          VH_CHECK(w.invs.size() == 1, "C03:handler-count", "handlers run: " << w.invs.size() << "; " << ctx());
          if (w.invs.size() == 1) {
            VH_CHECK(w.invs[0].rem == o.remains, "C03:remains", "handler got " << vh::showv(w.invs[0].rem) << " want " << vh::showv(o.remains) << "; " << ctx());
            std::set<string> touched_groups;
            for (auto &h: o.hits)
              if (!h.f->tg.empty()) touched_groups.insert(h.f->owner->key() + "/" + h.f->tg);
            for (auto *f: w.flags) {
              if (!f->tg.empty() && touched_groups.count(f->owner->key() + "/" + f->tg)) continue;
              auto it     = expect_val.find(f->key());
              string want = it == expect_val.end() ? f->def_canon : it->second;
              string got  = w.in_handler[f->key()];
              vh::count(it == expect_val.end() ? "defaults_checked" : (string("value_") + tname(f->type)).c_str());
              VH_CHECK(got == want, string("C03:value:") + (it == expect_val.end() ? "default:" : "hit:") + tname(f->type), f->key() << " reads " << vh::show(got) << " want " << vh::show(want) << "; " << ctx());
            }
          }
        }
      }
      if (has_help_hit(o)) break;
      for (auto &h: o.hits)
        if (h.f->builtin && h.f->lng == "feel-like" && !h.f->owner->owner) mo.feel_like = h.canon == "b:1";
      history += vh::showv(av) + " ; ";
    }
  }
  // ---------------------------------------------------------------- C04
  cmdr::vars::variable make_var(int type, string const &text) {
    using cmdr::vars::variable;
    auto split = [](string t) {
      vector<string> o;
      string q;
      if (!t.empty() && t[0] == '[') t = t.substr(1, t.size() - 2);
      std::stringstream ss(t);
      while (std::getline(ss, q, ',')) o.push_back(q);
      return o;
    };
    switch (type) {
      case T_BOOL: return variable(text == "1");
      case T_INT: return variable((int) strtol(text.c_str(), nullptr, 10));
      case T_LONG: return variable((long) strtol(text.c_str(), nullptr, 10));
      case T_UINT: return variable((unsigned) strtoul(text.c_str(), nullptr, 10));
      case T_DOUBLE: return variable(strtod(text.c_str(), nullptr));
      case T_FLOAT: return variable(strtof(text.c_str(), nullptr));
      case T_SHORT: return variable((short) atoi(text.c_str()));
      case T_ULONG: return variable(strtoul(text.c_str(), nullptr, 10));
      case T_VDBL: {
        vector<double> v;
        for (auto &x: elements(text)) v.push_back(strtod(x.c_str(), nullptr));
        return variable(v);
      }
      case T_VBOOL: {
        vector<bool> v;
        bool b;
        for (auto &x: elements(text)) bool_elem(x, b), v.push_back(b);
        return variable(v);
      }
      case T_CPLX: {
        double re, im;
        cplx_parts(text, re, im);
        return variable(std::complex<double>(re, im));
      }
      case T_VINT: {
        vector<int> v;
        for (auto &x: split(text)) v.push_back(atoi(x.c_str()));
        return variable(v);
      }
      case T_VSTR: return variable(split(text));
      default: return variable(string(text));
    }
  }
  void sources_case(int64_t, Rng &r) {
    clean_env();
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.overlap   = r.chance(15);
    g.max_depth = 2;
    w.root      = gen_app(r, g);
    vector<F *> flags; // user flags, plus harmless built-in booleans
    w.root->walk([&](C &c) {
      for (auto &f: c.flags)
        if (!f->builtin || (f->type == T_BOOL && f->tg.empty() && f->action == 0 && f->lng != "feel-like" && f->lng != "cli")) flags.push_back(f.get());
    });
    static const vector<string> pool{"TV_A", "TV_B", "TV_C", "TV_D", "TV_E", "TV_F"};
    for (auto *f: flags)
      if (!f->builtin && r.chance(50)) {
        int n = r.range(1, 3);
        for (int i = 0; i < n; i++) {
          string e = r.pick(pool);
          if (std::find(f->envs.begin(), f->envs.end(), e) == f->envs.end()) f->envs.push_back(e);
        }
      }
    w.read_store = true;
    // environment: name -> text, well-formed for every option it reaches
    std::map<string, std::set<int>> reach;
    std::map<string, vector<F *>> by_auto;
    w.root->walk([&](C &c) {
      for (auto &f: c.flags) {
        for (auto &e: f->envs) reach[e].insert(f->type);
        reach[auto_env_name(f->key())].insert(f->type);
      }
    });
    std::map<string, string> env;
    auto set_env = [&](string const &n) {
      if (env.count(n)) return;
      auto const &ts = reach[n];
      string v       = ts.size() == 1 ? rnd_env_value(r, *ts.begin()) : "1";
      env[n]         = v;
      setenv(n.c_str(), v.c_str(), 1);
    };
    for (auto *f: flags) {
      for (auto &e: f->envs)
        if (r.chance(f->builtin ? 3 : 35)) set_env(e);
      if (r.chance(f->builtin ? 3 : 25)) set_env(auto_env_name(f->key()));
    }
    std::map<F *, string> ext;
    for (auto *f: flags)
      if (r.chance(f->builtin ? 2 : 25)) ext[f] = f->type == T_BOOL ? (r.chance(50) ? "1" : "0") : rnd_env_value(r, f->type);
    w.index();
    w.flags.clear();
    w.by_key.clear();
    w.build();
    int form = r.range(0, 2);
    int loads = 0;
    w.app->set_global_on_loading_externals([&](cmdr::app &a) {
      loads++;
      for (auto &[f, t]: ext) {
        string k = f->key();
        string text = t;
        if (f->type == T_STR || f->type == T_CSTR) { // loaders hand over plain text
          string c;
          parse_full(T_STR, t, c);
          text = c.substr(2);
        }
        auto v = make_var(f->type, text);
        if (form == 0) a.store().set_raw(k.c_str(), static_cast<cmdr::vars::variable const &>(v));
        else if (form == 1)
          a.set(k.substr(4).c_str(), static_cast<cmdr::vars::variable const &>(v));
        else if (f->type == T_BOOL)
          a.set(k.substr(4).c_str(), t == "1");
        else if (f->type == T_INT)
          a.set(k.substr(4).c_str(), atoi(t.c_str()));
        else if (f->type == T_STR)
          a.set(k.substr(4).c_str(), text);
        else
          a.store().set_raw_p("app", k.substr(4).c_str(), static_cast<cmdr::vars::variable const &>(v));
      }
    });
    ArgvOpt ao;
    ao.large = r.chance(8);
    ao.pct_unknown = 0, ao.pct_help = 0, ao.pct_builtin = 4, ao.pct_stop_early = 0, ao.flags_max = 4;
    vector<string> av;
    Outcome o;
    for (int t = 0;; t++) {
      av = gen_argv(r, *w.root, ao);
      o  = model_run(*w.root, av);
      if (o.in_domain && o.kind == Outcome::INVOKE) break;
      if (t > 60) {
        vh::count("discarded_no_dispatch");
        return;
      }
    }
    std::map<F *, string> want;
    std::map<F *, int> src;
    std::map<F *, int> min_hits;
    for (auto *f: w.flags) want[f] = f->def_canon, src[f] = 0;
    for (auto &[f, t]: ext) {
      src[f] |= 1;
      parse_any(f->type, t, want[f]);
    }
    string desc;
    for (auto &[n, v]: env) desc += n + "=" + vh::show(v) + " ";
    for (auto *f: w.flags) {
      string n = auto_env_name(f->key());
      if (env.count(n)) src[f] |= 2, parse_any(f->type, env[n], want[f]);
      for (auto &e: f->envs)
        if (env.count(e)) {
          src[f] |= 4;
          min_hits[f]++;
          parse_any(f->type, env[e], want[f]);
        }
    }
    for (auto &h: o.hits) want[h.f] = h.canon, src[h.f] |= 8;
    Argv argv(av);
    vh::Capture cap;
    int rc = w.app->run(argv.argc(), argv.argv());
    cap.stop();
    vh::count("runs");
    auto ctx = [&] {
      string e;
      for (auto &[f, t]: ext) e += f->key() + "=" + vh::show(t) + " ";
      return "argv=" + vh::showv(av) + " env: " + desc + " loader: " + e + describe(*w.root) + "\n stderr=" + cap.err.substr(0, 300);
    };
    VH_CHECK(w.invs.size() == 1 && rc == o.leaf->rc, "C04:dispatch", "handlers run " << w.invs.size() << " rc " << rc << "; " << ctx());
    VH_CHECK(loads == 1, "C04:loader-count", loads << "; " << ctx());
    if (w.invs.size() != 1) return;
    string sig;
    for (auto *f: w.flags) {
      string got = w.in_handler[f->key()];
      if (!f->builtin) sig += tname(f->type) + std::to_string(src[f]) + ",";
      if (src[f]) vh::count(("sources_" + std::to_string(src[f])).c_str());
      VH_CHECK(got == want[f], string("C04:value:src") + std::to_string(src[f]) + ":" + tname(f->type), f->key() << " reads " << vh::show(got) << " want " << vh::show(want[f]) << " sources(1 loader,2 auto env,4 env,8 cli)=" << src[f] << "; " << ctx());
      auto *a = real_arg(*w.app, f);
      if (!a) continue;
      if (min_hits[f]) VH_CHECK(a->hit_count() >= 1, "C04:env-hit", f->key() << " has no hit although an environment variable of it is set; " << ctx());
      if (!min_hits[f] && !(src[f] & 8)) VH_CHECK(a->hit_count() == 0, "C04:stray-hit", f->key() << " has hits " << a->hit_count() << "; " << ctx());
    }
    vh::seen(sig + vh::showv(av));
    vh::sample(ctx());
  }

  // ---------------------------------------------------------------- C05
  struct Boom : std::runtime_error {
    using std::runtime_error::runtime_error;
  };
  void throw_it(int k) {
    switch (k) {
      case 1: throw Boom("boom");
      case 2: throw std::out_of_range("range");
      case 3: throw 42;
      case 4: throw cmdr::exception::cmdr_exception("f", 1, "plain cmdr exception");
    }
  }
  void lifecycle_case(int64_t, Rng &r) {
    clean_env();
    auto root = gen_app(r, [&] {
      GenOpt g;
      g.large = r.chance(8);
      g.max_depth = 2, g.overlap = false;
      return g;
    }());
    vector<F *> flags, user;
    std::map<string, string> env;
    struct CB {
      bool pre, inv, post, hit;
      int pre_rc, inv_rc, thr, post_thr;
    };
    auto const custom = static_cast<Action>(25); // an action of the application's own
    int act_rc        = r.range(-3, 9);
    bool act_known    = r.chance(85);
    std::map<C *, CB> cbs;
    root->walk([&](C &c) {
      for (auto &f: c.flags) {
        flags.push_back(f.get());
        if (f->builtin) continue;
        user.push_back(f.get());
        f->onhit    = 1;
        f->required = r.chance(10);
        if (r.chance(15)) f->envs.push_back("TVR_" + std::to_string(r.range(0, 3)));
      }
      if (c.builtin || !c.owner) return;
      CB b;
      b.pre = r.chance(60), b.inv = r.chance(88), b.post = r.chance(60), b.hit = r.chance(50);
      b.pre_rc   = r.chance(20) ? r.range(-4, 4) : 0;
      b.inv_rc   = r.chance(50) ? r.range(-4, 9) : 0;
      b.thr      = r.chance(28) ? r.range(1, 5) : 0;
      b.post_thr = r.chance(4) ? 1 : 0;
      cbs[&c]    = b;
    });
    F *abort_flag = !user.empty() && r.chance(15) ? r.pick(user) : nullptr;
    C *abort_cmd  = nullptr; // a command whose on-hit callback asks for abortion
    if (r.chance(8))
      for (auto &x: cbs)
        if (x.second.hit && r.chance(30)) abort_cmd = x.first;
    vector<F *> flag_hits;
    vector<std::pair<string, string>> handed; // callback, words it was given
    for (auto *f: user)
      for (auto &e: f->envs)
        if (f->type != T_BOOL && r.chance(30) && !env.count(e)) {
          bool same = true;
          for (auto *x: user)
            if (std::find(x->envs.begin(), x->envs.end(), e) != x->envs.end() && x->type != f->type) same = false;
          if (same) env[e] = rnd_env_value(r, f->type), setenv(e.c_str(), env[e].c_str(), 1);
        }
    bool gpre = r.chance(60), gpost = r.chance(60), nothooked = r.chance(50), nocatch = r.chance(20);
    int gpre_rc = r.chance(20) ? r.range(-4, 4) : 0;
    int nload = r.range(0, 3), npost = r.range(0, 3);
    vector<string> log;
    F *act_flag = nullptr;
    auto &app   = new_app();
    Hooks h;
    h.on_flag = [&](F *f, cmdr::opt::cmd const &, cmdr::opt::arg const &, string_array const &) { return flag_hits.push_back(f), f == abort_flag ? Action::Abortion : f == act_flag ? custom : Action::OK; };
    auto note = [&](char const *what, cmdr::opt::cmd const &x, string_array const &w) { handed.emplace_back(what, x.dotted_key() + vh::showv(vector<string>(w.begin(), w.end()))); };
    std::function<void(cmdr::opt::cmd &, C &)> def = [&](cmdr::opt::cmd &parent, C &c) {
      for (auto &f: c.flags)
        if (!f->builtin) add_flag(parent, f.get(), &h);
      for (auto &sp: c.subs) {
        if (sp->builtin) continue;
        C *s = sp.get();
        CB b = cbs[s];
        cmdr::opt::sub_cmd sc{};
        titles(sc, s->lng, s->sht, s->al);
        if (b.pre) sc.on_pre_invoke([&, s, b](cmdr::opt::cmd const &x, string_array const &w) { note("pre", x, w); log.push_back("pre " + s->key()); return b.pre_rc; });
        if (b.inv) sc.on_invoke([&, s, b, custom](cmdr::opt::cmd const &x, string_array const &w) { note("invoke", x, w); log.push_back("invoke " + s->key()); if (b.thr == 5) throw cmdr::opt::cmdr_requests_exception(custom); throw_it(b.thr); return b.inv_rc; });
        if (b.post) sc.on_post_invoke([&, s, b](cmdr::opt::cmd const &x, string_array const &w) { note("post", x, w); log.push_back("post " + s->key()); throw_it(b.post_thr); return 0; });
        if (b.hit) sc.on_hit([&log, s, abort_cmd](cmdr::opt::cmd const &, string_array const &) { log.push_back("hit " + s->key()); return s == abort_cmd ? Action::Abortion : Action::OK; });
        attach(parent, sc, s->lng);
        def(*parent.last_added_command(), *s);
      }
    };
    def(app, *root);
    if (gpre) app.set_global_pre_invoke_handler([&](cmdr::opt::cmd const &x, string_array const &w) { note("gpre", x, w); log.push_back("gpre"); return gpre_rc; });
    if (gpost) app.set_global_post_invoke_handler([&](cmdr::opt::cmd const &x, string_array const &w) { note("gpost", x, w); log.push_back("gpost"); return 0; });
    if (nothooked) app.set_global_on_command_not_hooked([&](cmdr::opt::cmd const &x, string_array const &w) { note("nothooked", x, w); log.push_back("nothooked"); return 5; });
    app.set_no_catch_cmdr_biz_error(nocatch);
    int ncm = r.chance(40) ? r.range(1, 2) : 0;
    for (int i = 0; i < ncm; i++)
      app.set_global_on_cmd_matched_handlers([&log, i](cmdr::opt::cmd *x) {
        log.push_back("cm" + std::to_string(i) + " " + x->dotted_key());
        return Action::OK;
      });
    if (act_known) app.register_action(custom, [&log, act_rc](cmdr::opt::types::parsing_context &, int, char *[]) {
      log.push_back("action");
      return act_rc;
    });
    bool loader_saw_defaults = true;
    string loader_diff;
    for (int i = 0; i < nload; i++)
      app.set_global_on_loading_externals([&, i](cmdr::app &a) {
        log.push_back("load" + std::to_string(i));
        for (auto *f: flags)
          if (canon(a.store().get_raw(f->key())) != f->def_canon) loader_saw_defaults = false, loader_diff = f->key();
      });
    for (int i = 0; i < npost; i++) app.set_global_on_post_run_handlers([&log, i](cmdr::app const &) { log.push_back("end" + std::to_string(i)); });

    ArgvOpt ao;
    ao.large = r.chance(8);
    ao.pct_builtin = 6, ao.flags_max = 6;
    auto av = gen_argv(r, *root, ao);
    auto o  = model_run(*root, av);
    if (!o.in_domain || (o.kind == Outcome::BUILTIN && o.leaf->lng == "shell")) {
      vh::count("discarded_out_of_domain");
      return;
    }
    bool by_flag = false;
    if (o.kind == Outcome::INVOKE && !user.empty() && r.chance(25)) {
      F *f     = r.pick(user);
      auto av2 = av;
      av2.push_back("--" + f->lng);
      auto o2 = model_run(*root, av2);
      int n   = 0;
      for (auto &x: o2.hits) n += x.f == f;
      if (f != abort_flag && o2.in_domain && o2.kind == Outcome::INVOKE && n == 1 && o2.hits.back().f == f && o2.hits.back().title == f->lng && o2.hits.size() == o.hits.size() + 1)
        av = av2, o = o2, by_flag = true, act_flag = f;
    }
    vector<string> want;
    for (int i = 0; i < nload; i++) want.push_back("load" + std::to_string(i));
    int want_rc  = 0, throws = 0;
    bool missing = false, aborted = false, exact = true;
    // the first callback that asks for abortion ends everything; nothing behind it is matched any more
    int stop_at = 1 << 30;
    vector<F *> want_hits;
    for (size_t i = 1; i < o.path.size(); i++)
      if (o.path[i] == abort_cmd && o.path_at[i - 1] < stop_at) stop_at = o.path_at[i - 1], aborted = true;
    for (auto &x: o.hits) {
      if (x.at > stop_at) break;
      if (!x.f->builtin) want_hits.push_back(x.f);
      if (x.f == abort_flag) {
        stop_at = x.at, aborted = true;
        break;
      }
    }
    if (aborted) {
      for (size_t i = 1; i < o.path.size() && o.path_at[i - 1] <= stop_at; i++) {
        for (int k = 0; k < ncm; k++) want.push_back("cm" + std::to_string(k) + " " + o.path[i]->key());
        if (!o.path[i]->builtin && cbs[o.path[i]].hit) want.push_back("hit " + o.path[i]->key());
      }
    } else {
      for (size_t i = 1; i < o.path.size(); i++)
      {
        for (int k = 0; k < ncm; k++) want.push_back("cm" + std::to_string(k) + " " + o.path[i]->key());
        if (!o.path[i]->builtin && cbs[o.path[i]].hit) want.push_back("hit " + o.path[i]->key());
      }
      if (by_flag) {
        if (act_known) want.push_back("action"), want_rc = act_rc;
      } else if (o.kind == Outcome::INVOKE) {
        for (C *c = o.leaf; c; c = c->owner)
          for (auto &f: c->flags)
            if (f->required) {
              bool hit = false;
              for (auto &x: o.hits) hit |= x.f == f.get();
              for (auto &e: f->envs) hit |= env.count(e) > 0;
              missing |= !hit;
            }
        CB b = cbs[o.leaf];
        if (missing) {
          want_rc = -1;
          if (nocatch) throws = 10;
        } else {
          int rc = 0;
          if (gpre) want.push_back("gpre"), rc = gpre_rc;
          if (rc == 0 && b.pre) want.push_back("pre " + o.leaf->key()), rc = b.pre_rc;
          bool boom = false, handover = false;
          if (rc == 0) {
            if (b.inv) {
              want.push_back("invoke " + o.leaf->key());
              if (b.thr == 5) handover = true;
              else if (b.thr)
                boom = true, throws = b.thr;
              else
                rc = b.inv_rc;
            } else if (nothooked)
              want.push_back("nothooked"), rc = 5;
          }
          if (b.post) {
            want.push_back("post " + o.leaf->key());
            if (b.post_thr) exact = false, boom = true;
          }
          if (gpost && !(b.post && b.post_thr)) want.push_back("gpost");
          if (boom) {
            want_rc = -1;
          } else if (handover) {
            vh::count("handed_over_to_action");
            want_rc = 0;
            if (act_known) want.push_back("action"), want_rc = act_rc;
          } else
            want_rc = rc;
        }
      }
    }
    for (int i = 0; i < npost; i++) want.push_back("end" + std::to_string(i));
    Argv argv(av);
    int rc = 0, caught = 0;
    vh::Capture cap;
    try {
      rc = app.run(argv.argc(), argv.argv());
    } catch (cmdr::exception::required_flag_missed const &) {
      caught = 10;
    } catch (std::exception const &) {
      caught = 1;
    } catch (int) {
      caught = 3;
    }
    cap.stop();
    vh::count("runs");
    vh::count("events", (int64_t) log.size());
    if (missing) vh::count("missing_required");
    if (aborted) vh::count("aborted_by_callback");
    if (throws && throws != 10) vh::count("handler_threw");
    string cbdesc = VH_MSG("gpre=" << gpre << "/" << gpre_rc << " gpost=" << gpost << " nothooked=" << nothooked << " nocatch=" << nocatch);
    if (o.leaf && cbs.count(o.leaf)) {
      CB b = cbs[o.leaf];
      cbdesc += VH_MSG(" leaf pre=" << b.pre << "/" << b.pre_rc << " invoke=" << b.inv << "/" << b.inv_rc << " throws=" << b.thr << " post=" << b.post << " post throws=" << b.post_thr);
    }
    auto ctx = [&] { return "events " + vh::showv(log) + " want " + vh::showv(want) + " rc=" + std::to_string(rc) + " want rc=" + std::to_string(want_rc) + " caught=" + std::to_string(caught) + " argv=" + vh::showv(av) + " " + kname(o.kind) + " " + cbdesc + describe(*root) + "\n stderr=" + cap.err.substr(0, 300); };
    // in every run: loaders once and first, post-run handlers once and last, every callback at most once
    std::map<string, int> n;
    for (auto &e: log) n[e]++;
    for (auto &[e, k]: n) VH_CHECK(k == 1, "C05:repeated:" + e.substr(0, e.find(' ')), "callback '" << e << "' ran " << k << " times; " << ctx());
    for (int i = 0; i < nload; i++) VH_CHECK((int) log.size() > i && log[(size_t) i] == "load" + std::to_string(i), "C05:loaders", ctx());
    for (int i = 0; i < npost; i++) VH_CHECK(n["end" + std::to_string(i)] == 1 && (int) log.size() >= npost && log[log.size() - (size_t) (npost - i)] == "end" + std::to_string(i), "C05:post-run", ctx());
    VH_CHECK(loader_saw_defaults, "C05:loader-early", "a loader ran after values were applied (" << loader_diff << "); " << ctx());
    bool cmdcb = false;
    for (auto &e: log) cmdcb |= e == "gpre" || e == "gpost" || e == "nothooked" || e.rfind("pre ", 0) == 0 || e.rfind("invoke ", 0) == 0 || e.rfind("post ", 0) == 0;
    if (aborted) VH_CHECK(!cmdcb && rc == 0, "C05:after-abort", ctx());
    if (aborted) VH_CHECK(log == want, "C05:abort-order", ctx());
    if (aborted) VH_CHECK(flag_hits == want_hits, "C05:hits-after-abort", flag_hits.size() << " on-hit callbacks ran, want " << want_hits.size() << " ; " << ctx());
    // every callback of the dispatch is about the matched command, and sees the words its handler sees
    if (o.kind == Outcome::INVOKE && !aborted && !by_flag)
      for (auto &x: handed) VH_CHECK(x.second == o.leaf->key() + vh::showv(o.remains), "C05:handed:" + x.first, x.first << " was given " << x.second << " want " << vh::showv(o.remains) << "; " << ctx());
    if (by_flag) vh::count("action_by_flag");
    if ((o.kind != Outcome::INVOKE && o.kind != Outcome::BUILTIN) || (by_flag && !aborted)) VH_CHECK(!cmdcb, "C05:no-dispatch", ctx());
    if (aborted || o.kind == Outcome::BUILTIN) return;
    if (exact || o.kind == Outcome::INVOKE) {
      if (exact) VH_CHECK(log == want, "C05:order", ctx());
      if (o.kind == Outcome::INVOKE) {
        vh::seen(vh::showv(log) + cbdesc);
        if (throws == 3 || (throws == 10)) {
          VH_CHECK(caught == throws || (!exact && caught == 0 && rc == -1), "C05:escape", ctx());
        } else
          VH_CHECK(caught == 0 && rc == want_rc, "C05:result", ctx());
        vh::sample(ctx());
      }
    }
  }

  // ---------------------------------------------------------------- C07
  void toggle_case(int64_t, Rng &r) {
    clean_env();
    World w;
    GenOpt g;
    g.large = r.chance(8);
    g.max_depth = 2, g.max_subs = 2, g.max_flags = 7, g.overlap = r.chance(20);
    w.root = gen_app(r, g);
    static const vector<string> groups{"tgrp1", "tgrp2", "which-shell"};
    w.root->walk([&](C &c) {
      if (c.builtin) return;
      int n = r.range(1, 3);
      for (auto &f: c.flags) {
        if (f->builtin || !r.chance(75)) continue;
        if (r.chance(90) && f->type != T_BOOL) {
          f->type = T_BOOL;
          bool b  = r.chance(25);
          f->def_text = b ? "1" : (r.chance(50) ? "0" : ""), f->def_canon = cm::cb(b);
        }
        f->tg = groups[(size_t) r.range(0, n - 1)];
        if (r.chance(30)) f->group = "some group";
      }
    });
    w.build();
    std::map<std::pair<C *, string>, string> sel;
    std::map<std::pair<C *, string>, bool> hit;
    std::map<F *, string> val;
    for (auto *f: w.flags) {
      val[f] = f->def_canon;
      if (f->tg.empty() || f->type != T_BOOL) continue;
      auto k = std::make_pair(f->owner, f->tg);
      if (!sel.count(k) || f->def_canon == "b:1") sel[k] = f->lng;
    }
    ArgvOpt ao;
    ao.large = r.chance(8);
    ao.flags_max = 9, ao.plus_minus = false, ao.pct_builtin = 6, ao.pct_unknown = 3, ao.pct_help = 0;
    int runs = r.range(1, 3);
    string hist;
    auto verify = [&](string const &ctx) {
      auto &st = cmdr::get_store();
      for (auto *f: w.flags) {
        string got = canon(st.get_raw(f->key()));
        VH_CHECK(got == val[f], f->tg.empty() ? "C07:outsider-value" : "C07:member-value", f->key() << " (group '" << f->tg << "') reads " << got << " want " << val[f] << "; " << ctx);
      }
      for (auto &[k, t]: sel) {
        auto *c    = real_cmd(*w.app, k.first);
        string got = "<none>";
        try {
          got = c->toggle_group(k.second);
        } catch (std::exception const &e) {
          got = string("<") + e.what() + ">";
        }
        VH_CHECK(got == t, "C07:selected", "group " << k.second << " of " << k.first->key() << " selected " << got << " want " << t << "; " << ctx);
        if (hit[k]) {
          string s = canon(st.get_raw(k.first->key() + "." + k.second));
          VH_CHECK(s == "s:" + t, "C07:selected-in-store", k.first->key() << "." << k.second << " reads " << s << " want " << t << "; " << ctx);
        }
      }
    };
    verify("before any run" + describe(*w.root));
    for (int k = 0; k < runs; k++) {
      auto av = gen_argv(r, *w.root, ao);
      ModelOpt mo;
      for (auto *f: w.flags)
        if (f->builtin && f->lng == "feel-like" && !f->owner->owner) mo.feel_like = val[f] == "b:1";
      auto o = model_run(*w.root, av, mo);
      if (!o.in_domain || (o.kind == Outcome::BUILTIN && o.leaf->lng == "shell")) {
        vh::count("discarded_out_of_domain");
        continue;
      }
      bool skip = false;
      for (auto &h: o.hits) skip |= !h.f->tg.empty() && h.f->type == T_BOOL && h.canon == "b:0";
      if (skip) continue;
      Argv argv(av);
      vh::Capture cap;
      w.app->run(argv.argc(), argv.argv());
      cap.stop();
      int th = 0;
      for (auto &h: o.hits) {
        if (!h.f->tg.empty() && h.f->type == T_BOOL) {
          th++;
          auto key = std::make_pair(h.f->owner, h.f->tg);
          sel[key] = h.f->lng;
          hit[key] = true;
          for (auto &x: h.f->owner->flags)
            if (x->tg == h.f->tg && x->type == T_BOOL) val[x.get()] = "b:0";
        }
        val[h.f] = h.canon;
      }
      vh::count("runs");
      vh::count("toggle_hits", th);
      if (th) vh::seen(shape(*w.root) + vh::showv(av));
      if (th > 1) vh::sample("argv=" + vh::showv(av) + describe(*w.root));
      verify("argv=" + vh::showv(av) + " after " + hist + describe(*w.root) + "\n stderr=" + cap.err.substr(0, 300));
      hist += vh::showv(av) + " ; ";
    }
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) {
    auto const &m = vh::opt().mode;
    if (m == "C04") sources_case(c, r);
    else if (m == "C05") lifecycle_case(c, r);
    else if (m == "C07") toggle_case(c, r);
    else
      dispatch_case(c, r);
  });
}
