// C31 the built-in commands and screens report the application as it is.
#include "cli_world.hpp"
#include <filesystem>
#include <fstream>

namespace {
  string strip_ansi(string const &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') {
        i += 2;
        while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
      } else
        o += s[i];
    }
    return o;
  }
  vector<string> lines_of(string const &t) {
    vector<string> v;
    std::stringstream ss(t);
    string l;
    while (std::getline(ss, l)) v.push_back(l);
    return v;
  }
  string quo(string const &s) {
    std::ostringstream os;
    os << std::quoted(s);
    return os.str();
  }
  string any_name(Rng &r, C *c) {
    vector<string> l{c->lng};
    if (!c->sht.empty()) l.push_back(c->sht);
    for (auto &a: c->al) l.push_back(a);
    return r.pick(l);
  }
  string title_of(C *c) {
    string t = c->lng;
    if (!c->sht.empty()) t += ", " + c->sht;
    for (size_t i = 0; i < c->al.size(); i++) t += (i ? "," : ", ") + c->al[i];
    return t;
  }
  string nospace(string const &s) {
    string o;
    for (char c: s)
      if (c != ' ') o += c;
    return o;
  }
  // what the report has to say about every flag hit so far
  struct Hits {
    int n     = 0;
    bool lng  = false, sp = false, env = false;
    string title;
  };
  string flag_title(F *f) {
    string t = "--" + f->lng;
    if (!f->placeholder.empty()) t += "=" + f->placeholder;
    return t;
  }

  void report_case(int64_t, Rng &r) {
    clean_env();
    World w;
    GenOpt g;
    g.overlap = r.chance(30);
    g.large   = r.chance(8);
    w.root    = gen_app(r, g);
    static const vector<string> names{"tst", "my-tool", "a-b-c-d", "x", "under_score", "dots.in.it", "-", "caf\xc3\xa9-x", "two words"};
    static const vector<string> vers{"1.2.3", "0", "v10.20.30-rc.1+build", "", "2021 beta", "%s%n", "1\t2"};
    string name = r.pick(names), ver = r.pick(vers);
    std::map<string, string> env_in; // as the handler sees it
    static const vector<string> exported{"APP_NAME", "SAFE_APP_NAME", "APP_VERSION", "EXE_DIR", "EXE_PATH", "EXE_NAME"};
    std::map<F *, Hits> hits;
    // a flag set from its environment variable counts as hit, too
    if (r.chance(30)) {
      static const vector<std::pair<string, string>> ev{{"VERBOSE", "verbose"}, {"QUIET", "quiet"}, {"TRACE", "trace"}, {"DEBUG", "debug"}};
      auto e = r.pick(ev);
      setenv(e.first.c_str(), "1", 1);
      for (auto &f: w.root->flags)
        if (f->lng == e.second) hits[f.get()].n = 1, hits[f.get()].env = true, hits[f.get()].lng = true, hits[f.get()].title = e.first;
    }
    string sim_env;
    if (r.chance(15)) {
      sim_env = r.pick(vector<string>{"9.9.9", "v3", "\"quoted 1\"", "7-rc.2"});
      setenv("VERSION_SIM", sim_env.c_str(), 1);
    }
    for (auto &e: exported)
      if (r.chance(20)) setenv(e.c_str(), "stale", 1);
    w.build(false, name.c_str(), ver.c_str());
    if (!sim_env.empty()) hits[w.by_key["app.cli.version-sim"]] = {1, true, false, true, "VERSION_SIM"};
    auto pre_runs = 0;
    w.app->set_global_pre_invoke_handler([&](cmdr::opt::cmd const &, string_array const &) {
      pre_runs++;
      for (auto &e: exported) {
        char const *p = getenv(e.c_str());
        env_in[e]     = p ? p : "<unset>";
      }
      return 0;
    });
    // values that did not come from an option
    std::map<string, int> loaded;
    if (r.chance(60)) {
      static const vector<string> ks{"app.server.port", "app.client.timeout", "app.climate", "app.cli-extra.x", "zone", "app.x.y.z", "app.cl"};
      for (auto &k: ks)
        if (r.chance(50)) {
          loaded[k] = r.range(0, 9999);
          string kk = k;
          cmdr::get_store().set_raw(kk.c_str(), loaded[k]);
        }
    }
    vector<C *> all;
    w.root->walk([&](C &c) {
      if (!c.builtin) all.push_back(&c);
    });
    ArgvOpt ao;
    ao.pct_help = 0, ao.pct_unknown = 0, ao.pct_pass = 10, ao.pct_builtin = 35;
    int kind = r.range(0, 5);
    vector<string> av;
    string what;
    C *at  = w.root.get();
    for (int t = 0; t < 40; t++) {
      av = gen_argv(r, *w.root, ao);
      Outcome o = model_run(*w.root, av);
      if (!o.in_domain || has_help_hit(o)) continue;
      if (kind >= 3 && o.kind != Outcome::INVOKE) continue;
      if (kind < 3 && (o.kind == Outcome::UNKNOWN_CMD || o.kind == Outcome::UNKNOWN_FLAG || o.kind == Outcome::BUILTIN)) continue;
      if (std::find(av.begin(), av.end(), "--") != av.end() && kind < 3) continue;
      at = o.path.back();
      break;
    }
    Outcome base = model_run(*w.root, av);
    if (!base.in_domain || has_help_hit(base) || base.kind == Outcome::UNKNOWN_CMD || base.kind == Outcome::UNKNOWN_FLAG || base.kind == Outcome::BUILTIN || (kind >= 3 && base.kind != Outcome::INVOKE)) {
      vh::count("discarded_out_of_domain");
      return;
    }
    if (kind < 3 && std::find(av.begin(), av.end(), "--") != av.end()) return;
    // make it a request for a report
    int debugs = 0;
    bool cli   = false;
    switch (kind) {
      case 0: { // a version screen
        what = "version";
        if (r.chance(40)) {
          vector<string> f;
          string sim;
          if (r.chance(30)) f.push_back("--version-sim=" + (sim = r.pick(vector<string>{"4.5.6", "v1", "2-beta"})));
          f.push_back(any_name(r, w.root->sub("version")));
          av = {"prog"};
          av.insert(av.end(), f.begin(), f.end());
          for (int k = r.range(0, 2); k > 0; k--) av.push_back("w" + std::to_string(k));
        } else {
          if (r.chance(30)) av.push_back("--version-sim=" + r.pick(vector<string>{"4.5.6", "v1", "2-beta"}));
          av.push_back(r.pick(vector<string>{"--version", "--versions", "--ver", "-V", "/V"}));
        }
        break;
      }
      case 1:
        what = "build-info";
        av.push_back(r.pick(vector<string>{"--build-info", "-#", "--bdinfo"}));
        break;
      case 2: { // a debug screen
        what   = "debug";
        debugs = r.range(1, 3);
        cli    = r.chance(40);
        if (cli) av.push_back("~~cli");
        string t = "~~";
        for (int k = 0; k < debugs; k++) {
          if (k && r.chance(50)) av.push_back(t), t = "~~";
          t += r.pick(vector<string>{"debug", "debug-mode"});
        }
        av.push_back(t);
        break;
      }
      case 3: what = "leaf"; break; // a command without handler
      case 4: { // the print command
        what = "print";
        vector<string> v{"prog"};
        for (size_t i = 1; i < av.size() && (int) v.size() < 4; i++)
          if (av[i].size() > 1 && av[i][0] == '-') {
            Outcome o = model_run(*w.root, {"prog", av[i]});
            if (o.in_domain && o.hits.size() && o.hits[0].f->owner == w.root.get() && o.kind == Outcome::USAGE && !has_help_hit(o)) v.push_back(av[i]);
          }
        av = v;
        av.push_back(any_name(r, w.root->sub("print")));
        for (int k = r.range(0, 2); k > 0; k--) av.push_back("w" + std::to_string(k));
        break;
      }
      case 5: { // the help command
        what = "help";
        C *c = r.pick(all);
        vector<C *> path;
        for (C *x = c; x->owner; x = x->owner) path.insert(path.begin(), x);
        av = {"prog"};
        if (r.chance(50)) av.push_back("--no-color");
        av.push_back(any_name(r, w.root->sub("help")));
        for (auto *x: path) av.push_back(any_name(r, x));
        // ambiguous words resolve as the look-up does
        C *y = w.root.get();
        for (size_t i = av.size() - path.size(); i < av.size() && y; i++) y = y->sub(av[i]);
        if (!y) return;
        at = y;
        break;
      }
    }
    if (std::find_if(av.begin() + 1, av.end(), [](string const &s) { return s.find('\n') != string::npos || s.find('\r') != string::npos || s.find(27) != string::npos; }) != av.end()) return;
    Outcome o = model_run(*w.root, av);
    if (!o.in_domain || has_help_hit(o)) {
      vh::count("discarded_out_of_domain");
      return;
    }
    if ((kind < 3 && o.kind != Outcome::ACTION && o.kind != Outcome::BUILTIN) || (kind == 3 && o.kind != Outcome::INVOKE) || (kind > 3 && o.kind != Outcome::BUILTIN)) {
      vh::count("discarded_out_of_domain");
      return;
    }
    if (o.kind == Outcome::BUILTIN && o.leaf != w.root->sub(kind == 0 ? "version" : kind == 4 ? "print" : "help")) return;
    for (auto &h: o.hits) {
      auto &x = hits[h.f];
      x.n++, x.title = h.title, x.lng |= h.kind > 0, x.sp |= h.kind == 2;
    }
    // the screen is as detailed as the flags say, wherever their hits come from
    if (kind == 2) {
      debugs = 0;
      for (auto &h: hits) {
        if (h.first->builtin && h.first->lng == "debug") debugs += h.second.n;
      }
      for (auto &h: o.hits)
        if (h.f->builtin && h.f->lng == "cli") cli = h.canon == cm::cb(true); // "--cli-" takes it back
      if (debugs > 5) return; // beyond the documented levels: a demonstration of colours
    }
    string sim = sim_env;
    if (sim.size() > 1 && sim[0] == '"') sim = sim.substr(1, sim.size() - 2);
    for (auto &h: o.hits)
      if (h.f->lng == "version-sim" && h.f->builtin) sim = h.canon.substr(2);
    Argv argv(av);
    vh::Capture cap;
    int rc = w.app->run(argv.argc(), argv.argv());
    cap.stop();
    string out = strip_ansi(cap.out);
    auto L     = lines_of(out);
    vh::count("reports");
    vh::count(what.c_str());
    auto ctx = [&] { return what + " argv=" + vh::showv(av) + " name=" + vh::show(name) + " version=" + vh::show(ver) + describe(*w.root) + "\n stdout=" + out.substr(0, 3000) + "\n stderr=" + cap.err.substr(0, 300); };
    vh::seen(what + shape(*w.root) + vh::showv(av) + name + ver);
    vh::sample(ctx());
    VH_CHECK(rc == 0, "C31:rc", "rc=" << rc << "; " << ctx());
    VH_CHECK(w.invs.empty(), "C31:handler-ran", ctx());
    // the accessors for the built-in switches say what was typed
    {
      std::map<string, std::pair<bool, int>> sw; // value and hits
      for (auto &h: hits)
        if (h.first && h.first->builtin && h.second.env) sw[h.first->lng] = {true, 1};
      for (auto &h: o.hits)
        if (h.f->builtin) sw[h.f->lng].first = h.canon == cm::cb(true), sw[h.f->lng].second++;
      auto is = [&](char const *n, bool got) { VH_CHECK(got == sw[n].first, "C31:accessor", "is_" << n << "() is " << got << "; " << ctx()); };
      is("debug", cmdr::is_debug());
      is("trace", cmdr::is_trace());
      is("verbose", cmdr::is_verbose());
      is("quiet", cmdr::is_quiet());
      is("no-color", cmdr::is_no_color());
      VH_CHECK(cmdr::get_verbose_level() == sw["verbose"].second, "C31:accessor", "get_verbose_level() is " << cmdr::get_verbose_level() << "; " << ctx());
      VH_CHECK(!cmdr::is_help_hit(), "C31:accessor", "is_help_hit() " << ctx());
    }
    if (kind == 0) {
      string want = sim.empty() ? ver : sim;
      VH_CHECK(out == want + "\n", "C31:version", "the version screen should say " << vh::show(want) << " and says " << vh::show(out) << "; " << ctx());
    }
    if (kind == 1) {
      VH_CHECK(std::count(L.begin(), L.end(), name) >= 1 && L.size() >= 2 && L[L.size() - 2] == name && L.back() == ver, "C31:build-info", "the build info should end with the name and the version; " << ctx());
    }
    if (kind == 5) {
      // exactly the screen of that command
      std::ostringstream os;
      vector<string> h = L;
      VH_CHECK(h.size() > 2, "C31:help", ctx());
      string exe   = std::filesystem::read_symlink("/proc/self/exe").filename().string();
      string usage = exe;
      vector<C *> path;
      for (C *x = at; x->owner; x = x->owner) path.insert(path.begin(), x);
      for (auto *x: path) usage += " " + x->lng;
      bool ok = false;
      for (auto &l: h) {
        ok |= nospace(l) == nospace(usage) + "[options][TailArgs]";
      }
      VH_CHECK(ok, "C31:help", "the screen of " << at->key() << " should show the usage " << usage << "; " << ctx());
      auto has_word = [&](string const &t) {
        for (auto &l: h) {
          size_t p = 0;
          while ((p = l.find(t, p)) != string::npos) {
            auto wc = [](char c) { return isalnum((unsigned char) c) || c == '_' || c == '-'; };
            if ((p == 0 || !wc(l[p - 1])) && (p + t.size() >= l.size() || !wc(l[p + t.size()]))) return true;
            p += t.size();
          }
        }
        return false;
      };
      for (auto &s: at->subs)
        if (!s->builtin) VH_CHECK(has_word(s->lng), "C31:help", "the screen of " << at->key() << " does not name " << s->lng << "; " << ctx());
      for (C *c = at; c; c = c->owner)
        for (auto &f: c->flags)
          if (!f->builtin) VH_CHECK(has_word("--" + f->lng), "C31:help", "the screen of " << at->key() << " does not name --" << f->lng << "; " << ctx());
    }
    if (kind == 2 || kind == 3 || kind == 4) {
      C *c     = o.path.back();
      size_t i = 0;
      auto next = [&](string const &want, char const *key) {
        string got = i < L.size() ? L[i] : "<nothing>";
        i++;
        VH_CHECK(got == want, key, "expected the line " << vh::show(want) << " and got " << vh::show(got) << "; " << ctx());
        return got == want;
      };
      if (kind == 2 && debugs > 1) {
        auto filter = [&](std::pair<string, cmdr::vars::store::node_pointer> const &p) { return cli || !(p.first == "app.cli" || p.first.compare(0, 8, "app.cli.") == 0); };
        std::ostringstream os;
        // which keys there must be is known without the store
        std::set<string> keys;
        for (auto &k: loaded) keys.insert(k.first);
        if (cli)
          for (auto *f: w.flags) keys.insert(f->key());
        w.app->dump_full_keys_f(os, filter, "Dumping the Option Store ...");
        auto D = lines_of(strip_ansi(os.str()));
        size_t matched = 0;
        for (auto &l: D) {
          if (!next(l, "C31:debug-dump")) break;
          matched++;
        }
        vh::count("dump_lines", (int64_t) matched);
        for (auto &k: keys) {
          int n = 0;
          for (auto &l: D) {
            size_t p = l.find_first_not_of(" -");
            n += p != string::npos && l.compare(p, k.size(), k) == 0 && p + k.size() < l.size() && l[p + k.size()] == ' ';
          }
          VH_CHECK(n == 1, "C31:debug-keys", "the key " << k << " is dumped " << n << " times; " << ctx());
        }
        if (debugs > 2) {
          std::ostringstream o2;
          w.app->dump_tree_f(o2, filter, "Dumping the Option Store as Tree ...");
          for (auto &l: lines_of(strip_ansi(o2.str())))
            if (!next(l, "C31:debug-tree")) break;
        }
      }
      if (kind == 3) next("INVOKING: " + quo(title_of(c)) + ", remains: " + [&] {
        string s;
        for (auto &x: o.remains) s += (s.empty() && &x == &o.remains[0] ? "" : ",") + x;
        return s;
      }() + ".",
                          "C31:invoking");
      next("command " + quo(kind == 2 && o.path.size() == 1 ? string("app.cli") : title_of(c)) + " hit.", "C31:command-hit");
      std::multiset<string> want, got;
      for (auto &h: hits) {
        F *f = h.first;
        auto &x = h.second;
        auto *a = real_arg(*w.app, f);
        if (!a) continue;
        std::ostringstream v;
        v << cmdr::get_store().get_raw(f->key());
        want.insert(" - " + std::to_string(x.n) + " hits: " + quo(a->title()) + " (hit title: " + quo(x.title) + ", spec:" + std::to_string(x.sp) + ", long:" + std::to_string(x.lng) + ", env:" + std::to_string(x.env) + "): '" + f->key() + "' => " + v.str());
      }
      for (; i < L.size(); i++) got.insert(L[i]);
      string miss, extra;
      for (auto &x: want)
        if (want.count(x) != got.count(x)) miss += "\n   want " + x;
      for (auto &x: got)
        if (want.count(x) != got.count(x)) extra += "\n   got  " + x;
      VH_CHECK(want == got, "C31:hits", "the report of the flags hit differs:" << miss << extra << "\n; " << ctx());
      vh::count("reported_hits", (int64_t) want.size());
    }
    if (kind >= 3) {
      VH_CHECK(pre_runs == 1, "C31:pre-runs", pre_runs << "; " << ctx());
      string safe = name;
      for (char &c: safe)
        if (c == '-') c = '_';
      auto exe = std::filesystem::read_symlink("/proc/self/exe");
      std::map<string, string> want{{"APP_NAME", name}, {"SAFE_APP_NAME", safe}, {"APP_VERSION", ver}, {"EXE_PATH", exe.string()}, {"EXE_DIR", exe.parent_path().string()}, {"EXE_NAME", exe.filename().string()}};
      for (auto &e: want) VH_CHECK(env_in[e.first] == e.second, "C31:environment", e.first << " is " << vh::show(env_in[e.first]) << " want " << vh::show(e.second) << "; " << ctx());
      vh::count("environments_checked");
    }
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) { report_case(c, r); });
}
