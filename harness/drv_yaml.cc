// C29: configuration files in YAML reach the option store.
#include "cmdr-config-base.hh"
#include "cmdr-version.hh"

#include "yaml_loader.hh"

#include "cli_world.hpp"
#include <fcntl.h>
#include <filesystem>
#include <memory>
#include <sys/stat.h>

namespace fs = std::filesystem;
namespace {
  string g_root;
  int g_no;
  void enter_case() {
    static string base = fs::current_path().string();
    g_root             = base + "/y" + std::to_string(getpid()) + "_" + std::to_string(g_no++);
    fs::create_directories(g_root + "/home");
    fs::create_directories(g_root + "/work");
    if (chdir((g_root + "/work").c_str())) {}
    setenv("HOME", (g_root + "/home").c_str(), 1);
    unsetenv("CONFIG_FILE");
  }
  void leave_case() {
    if (chdir("/")) {}
    std::error_code ec;
    if (g_root.find("/y") != string::npos) fs::remove_all(g_root, ec);
  }
  void put(string const &p, string const &s) {
    fs::create_directories(fs::path(p).parent_path());
    std::ofstream(p, std::ios::binary) << s;
  }
  void clean_env() {
    vector<string> drop;
    for (char **e = environ; *e; e++) {
      string s = *e;
      auto n   = s.substr(0, s.find('='));
      if (n.rfind("APP", 0) == 0 || n.rfind("TV_", 0) == 0 || n.rfind("ZQ", 0) == 0) drop.push_back(n);
    }
    for (auto &n: drop) unsetenv(n.c_str());
  }

  // ------------------------------------------------------------ documents
  // A document is a tree; leaves carry the text(s) and what they have to read back as.
  struct N {
    int kind = 0; // 0 map, 1 scalar, 2 sequence, 3 null
    string text;  // scalar: its content (not its spelling)
    bool quoted = false;
    vector<std::pair<string, std::unique_ptr<N>>> kids;
    vector<std::unique_ptr<N>> items;
  };
  bool bool_word(string const &s, bool &v) {
    static char const *t[] = {"y", "yes", "true", "on"}, *f[] = {"n", "no", "false", "off"};
    for (int k = 0; k < 2; k++)
      for (auto *w: k ? f : t) {
        string a = w, b = a, c = a;
        b[0] = (char) toupper(b[0]);
        for (auto &x: c) x = (char) toupper(x);
        if (s == a || s == b || s == c) {
          v = !k;
          return true;
        }
      }
    return false;
  }
  string canon_of(N const &n) { // for values which belong to no option
    bool b;
    if (n.kind == 1) return bool_word(n.text, b) ? cm::cb(b) : cs(n.text);
    if (n.items.empty()) return cvs({});
    string s = "vv[";
    for (auto &i: n.items) s += canon_of(*i) + ";";
    return s + "]";
  }
  string canon2(cmdr::vars::variable const &v) {
    if (v.has_value() && v.type() == typeid(vector<cmdr::vars::variable>)) {
      string s = "vv[";
      for (auto &i: std::any_cast<vector<cmdr::vars::variable>>(v.underlying_value())) s += canon2(i) + ";";
      return s + "]";
    }
    return canon(v);
  }
  string dquote(string const &s) {
    string o = "\"";
    for (unsigned char c: s) {
      char b[8];
      if (c == '"' || c == '\\') o += '\\', o += (char) c;
      else if (c == '\n')
        o += "\\n";
      else if (c == '\t')
        o += "\\t";
      else if (c < 32)
        snprintf(b, sizeof b, "\\x%02x", c), o += b;
      else
        o += (char) c;
    }
    return o + "\"";
  }
  string squote(string const &s) {
    string o = "'";
    for (char c: s) {
      if (c == '\'') o += "''";
      else
        o += c;
    }
    return o + "'";
  }
  bool plain_ok(string const &s) {
    if (s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL") return false;
    for (size_t i = 0; i < s.size(); i++) {
      char c = s[i];
      if (!(isalnum((unsigned char) c) || c == '_' || c == '.' || c == '/' || (c == '-' && i) || (c == '-' && !i && s.size() > 1 && isdigit((unsigned char) s[1])) || c == '+')) return false;
    }
    return true;
  }
  string spell(Rng &r, string const &s) {
    bool ctl = false;
    for (unsigned char c: s) ctl |= c < 32;
    if (plain_ok(s) && r.chance(75)) return s;
    if (!ctl && r.chance(40)) return squote(s);
    return dquote(s);
  }
  string spell_key(Rng &r, string const &s) { return plain_ok(s) && r.chance(90) ? s : s.find('\'') == string::npos && r.chance(30) ? squote(s) : dquote(s); }
  string flow(Rng &r, N const &n) {
    string s;
    if (n.kind == 3) return r.chance(50) ? "null" : "~";
    if (n.kind == 1) return spell(r, n.text);
    if (n.kind == 2) {
      for (auto &i: n.items) s += (s.empty() ? "" : r.chance(50) ? ", " : " , ") + flow(r, *i);
      return "[" + s + "]";
    }
    for (auto &[k, v]: n.kids) s += (s.empty() ? "" : ", ") + spell_key(r, k) + ": " + flow(r, *v);
    return "{" + s + "}";
  }
  struct Emit {
    Rng &r;
    int anchors = 0;
    std::map<string, string> by_text; // scalar content -> anchor name
    string doc;
    void noise(int ind) {
      if (r.chance(8)) doc += string((size_t) ind, ' ') + "# a comment: [with {odd \"things\n";
      if (r.chance(5)) doc += "\n";
    }
    string tail() { return r.chance(8) ? " # tail: x\n" : "\n"; }
    void map(N const &n, int ind) {
      int step = r.range(1, 4);
      (void) step;
      for (auto &[k, v]: n.kids) {
        noise(ind);
        doc += string((size_t) ind, ' ') + spell_key(r, k) + ":";
        value(*v, ind + step);
      }
    }
    void value(N const &n, int ind) {
      if (n.kind == 3) {
        doc += (r.chance(40) ? "" : r.chance(50) ? " ~" : " null") + tail();
        return;
      }
      if (n.kind == 1) {
        auto it = by_text.find(n.text);
        if (it != by_text.end() && r.chance(30)) {
          doc += " *" + it->second + tail();
          return;
        }
        string a;
        if (!n.text.empty() && r.chance(6)) {
          string nm         = "a" + std::to_string(anchors++);
          by_text[n.text] = nm;
          a                 = " &" + nm;
        }
        bool multi = n.text.find('\n') != string::npos;
        if (a.empty() && multi && n.text.back() == '\n' && n.text.front() != ' ' && n.text.front() != '\n' && n.text.find("\n\n") == string::npos && n.text.find_first_of("\t\r") == string::npos && r.chance(70)) {
          bool ok = true;
          for (unsigned char c: n.text) ok &= c >= 32 || c == '\n';
          if (ok) {
            doc += " |\n";
            std::istringstream is(n.text);
            string l;
            while (std::getline(is, l)) doc += string((size_t) ind, ' ') + l + "\n";
            return;
          }
        }
        doc += a + " " + spell(r, n.text) + tail();
        return;
      }
      bool empty = n.kind == 2 ? n.items.empty() : n.kids.empty();
      if (empty || r.chance(35)) {
        doc += " " + flow(r, n) + tail();
        return;
      }
      doc += tail();
      if (n.kind == 0) map(n, ind);
      else
        for (auto &i: n.items) {
          noise(ind);
          doc += string((size_t) ind, ' ') + "- " + flow(r, *i) + tail();
        }
    }
  };
  N *dig(N &root, vector<string> const &path) {
    N *n = &root;
    for (auto &p: path) {
      N *next = nullptr;
      for (auto &k: n->kids)
        if (k.first == p) next = k.second.get();
      if (!next) {
        n->kids.emplace_back(p, std::make_unique<N>());
        next = n->kids.back().second.get();
      }
      n = next;
    }
    return n;
  }
  vector<string> split(string const &k) {
    vector<string> v;
    std::istringstream is(k);
    string p;
    while (std::getline(is, p, '.')) v.push_back(p);
    return v;
  }
  string join(vector<string> const &v) {
    string s;
    for (auto &p: v) s += (s.empty() ? "" : ".") + p;
    return s;
  }
  string rnd_scalar(Rng &r) {
    static vector<string> const odd = {"yes", "No", "TRUE", "off", "y", "N", "null-ish", "1", "-3", "0x1F", "1.5", "1e9", "8s", "45.7min", "", " ", "~x", "- a", "a: b", "#no", "a#b", "[x", "{y}", "it's", "say \"hi\"", "back\\slash", "tab\there", "two\nlines\n", "one\n", "x\ny", "caf\xc3\xa9", "%d", "*a", "&a", "!t", "|", ">", "@", "`", "2026-11-19", "12:30:45", "true ", "a,b,c", "[1,2]", "\"", "'"};
    if (r.chance(45)) return r.pick(odd);
    string s;
    size_t n = 1 + r.below(12);
    for (size_t i = 0; i < n; i++) s += (char) ('a' + r.below(26));
    return s;
  }
  std::unique_ptr<N> rnd_leaf(Rng &r, int depth = 0) {
    auto n = std::make_unique<N>();
    int k  = (int) r.below(10);
    if (k == 0 && depth == 0) n->kind = 3;
    else if (k <= 2 && depth < 3) {
      n->kind = 2;
      int c   = r.range(0, 4);
      for (int i = 0; i < c; i++) n->items.push_back(rnd_leaf(r, depth + 1));
      if (depth && n->items.empty()) n->items.push_back(rnd_leaf(r, 9)); // an empty list inside of a list: covered by its own case below
    } else
      n->kind = 1, n->text = rnd_scalar(r);
    return n;
  }
  void fill_value(Rng &r, N &n, F *f, string &want) {
    n.kids.clear();
    n.items.clear();
    auto scalar = [&](string const &t) {
      n.kind = 1, n.text = t;
    };
    switch (f->type) {
      case T_BOOL: {
        static char const *w[] = {"true", "False", "YES", "no", "on", "Off", "y", "N"};
        string t               = w[r.below(8)];
        bool b;
        bool_word(t, b);
        scalar(t), want = cm::cb(b);
        break;
      }
      case T_VINT: {
        n.kind = 2;
        vector<int> v;
        int c = r.range(0, 4);
        for (int i = 0; i < c; i++) {
          v.push_back((int) r.below(2000) - 1000);
          n.items.push_back(std::make_unique<N>());
          n.items.back()->kind = 1, n.items.back()->text = std::to_string(v.back());
        }
        want = cvi(v);
        break;
      }
      case T_VDBL: {
        n.kind = 2;
        vector<double> v;
        int c = r.range(0, 4);
        for (int i = 0; i < c; i++) {
          string t = rnd_value(r, T_FLOAT);
          v.push_back(strtod(t.c_str(), nullptr));
          n.items.push_back(std::make_unique<N>());
          n.items.back()->kind = 1, n.items.back()->text = t;
        }
        want = cvd(v);
        break;
      }
      case T_VSTR: {
        n.kind = 2;
        vector<string> v;
        int c = r.range(0, 4);
        for (int i = 0; i < c; i++) {
          v.push_back(rnd_scalar(r));
          n.items.push_back(std::make_unique<N>());
          n.items.back()->kind = 1, n.items.back()->text = v.back();
        }
        want = cvs(v);
        break;
      }
      case T_STR: {
        string t = rnd_scalar(r);
        scalar(t), want = cs(t);
        break;
      }
      default: {
        string t = rnd_value(r, f->type, false);
        parse_full(f->type, t, want);
        scalar(t);
      }
    }
  }
  bool wanted_type(F *f) { return f->type == T_BOOL || f->type == T_INT || f->type == T_LONG || f->type == T_UINT || f->type == T_DOUBLE || f->type == T_FLOAT || f->type == T_SHORT || f->type == T_ULONG || f->type == T_VDBL || f->type == T_STR || f->type == T_VINT || f->type == T_VSTR; }

  struct Case29 {
    World w;
    vector<F *> flags;
    std::map<string, string> want; // store key -> canonical value
    vector<string> paths;          // free keys
    vector<string> files;          // in the order they are loaded
    string desc;
    bool build(Rng &r) {
      GenOpt g;
      g.large = r.chance(8);
      g.overlap   = false;
      g.max_depth = 2;
      w.root      = gen_app(r, g);
      bool bad    = false;
      w.root->walk([&](C &c) {
        for (auto &f: c.flags) {
          if (f->builtin) continue;
          if (!c.owner && (f->lng == "config" || std::find(f->al.begin(), f->al.end(), "config") != f->al.end())) bad = true;
          if (f->tg.empty() && wanted_type(f.get())) flags.push_back(f.get());
        }
      });
      if (bad) return false;
      // an option sharing its key with a command cannot be told apart from it in a document
      std::set<string> cmds;
      w.root->walk([&](C &c) { cmds.insert(c.key()); });
      flags.erase(std::remove_if(flags.begin(), flags.end(), [&](F *f) { return cmds.count(f->key()); }), flags.end());
      w.index();
      w.flags.clear();
      w.by_key.clear();
      w.read_store = true;
      w.build();
      w.app->set_global_on_loading_externals(cmdr::addons::loaders::yaml_loader{}());
      for (auto *f: flags) want[f->key()] = f->def_canon;
      // keys of no option: no one is a prefix of another
      int n = r.range(0, 7);
      for (int i = 0; i < n; i++) {
        vector<string> p;
        p.push_back(r.chance(60) ? "app" : "zq" + std::to_string(r.below(3)));
        int d = r.range(1, 4);
        for (int k = 0; k < d; k++) {
          static vector<string> const words = {"sec", "Sec-1", "a b", "k_v", "x", "42", "yes", "caf\xc3\xa9", "q:r", "#h"};
          p.push_back(r.pick(words) + (k + 1 == d ? "_" + std::to_string(i) : string("")));
        }
        paths.push_back(join(p));
      }
      return true;
    }
    // a document holding some of the options and free keys; want is updated for what it says
    string document(Rng &r, std::set<string> const &keep, bool may_be_empty = true) {
      N root;
      std::map<string, string> w1;
      vector<std::pair<F *, int>> fl;
      vector<int> order;
      for (size_t i = 0; i < flags.size() + paths.size(); i++)
        if (r.chance(50) || (!may_be_empty && i == 0)) order.push_back((int) i);
      for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
      for (int i: order) {
        if ((size_t) i < flags.size()) {
          auto *f = flags[(size_t) i];
          N *n    = dig(root, split(f->key()));
          string c;
          if (r.chance(5)) {
            n->kind = 3; // says nothing
            continue;
          }
          fill_value(r, *n, f, c);
          if (!keep.count(f->key())) w1[f->key()] = c;
        } else {
          auto const &p = paths[(size_t) i - flags.size()];
          auto leaf     = rnd_leaf(r);
          N *n          = dig(root, split(p));
          n->kind       = leaf->kind;
          n->text       = leaf->text;
          n->items      = std::move(leaf->items);
          if (n->kind != 3) w1[p] = canon_of(*n);
        }
        vh::count("c29_keys_in_files");
      }
      for (auto &[k, v]: w1) want[k] = v;
      Emit e{r, 0, {}, ""};
      if (r.chance(10)) e.doc += "---\n";
      if (r.chance(10) && !root.kids.empty()) e.doc += flow(r, root) + "\n";
      else
        e.map(root, 0);
      if (r.chance(5)) e.doc += "...\n";
      return e.doc;
    }
  };
  string value_word(Rng &r, F *f) { return rnd_value(r, f->type, false); }

  void documents_case(Rng &r) {
    clean_env();
    Case29 k;
    if (!k.build(r)) {
      vh::count("discarded_names");
      return;
    }
    auto &w = k.w;
    // files in the places the loader looks at, later ones win
    struct Place {
      string path, shown;
    };
    vector<Place> places = {{g_root + "/home/.config/tst/tst.yml", g_root + "/home/.config/tst/tst.yml"}, {g_root + "/home/.tst/tst.yml", g_root + "/home/.tst/tst.yml"}, {g_root + "/work/tst.yml", "tst.yml"}, {g_root + "/work/.tst.yml", ".tst.yml"}};
    vector<string> loaded;
    string desc;
    // 0 file, 1 directory
    int envform = r.chance(30) ? r.range(1, 2) : 0;
    if (envform) {
      string p = g_root + (envform == 1 ? "/env.yml" : "/envdir/tst.yml"), d = k.document(r, {});
      put(p, d);
      setenv("CONFIG_FILE", envform == 1 ? p.c_str() : (g_root + "/envdir").c_str(), 1);
      loaded.push_back(p);
      desc += "CONFIG_FILE:\n" + d;
    }
    for (auto &p: places)
      if (r.chance(30)) {
        string d = k.document(r, {});
        put(p.path, d);
        loaded.push_back(p.shown);
        desc += p.shown + ":\n" + d;
      }
    // environment on top of the files
    string envs;
    std::set<string> by_env;
    if (r.chance(40))
      for (auto *f: k.flags)
        if (r.chance(20)) {
          string v = rnd_env_value(r, f->type), c;
          if (f->type == T_BOOL) v = r.chance(50) ? "1" : "0";
          parse_any(f->type, v, c);
          setenv(auto_env_name(f->key()).c_str(), v.c_str(), 1);
          k.want[f->key()] = c;
          by_env.insert(f->key());
          envs += auto_env_name(f->key()) + "=" + vh::show(v) + " ";
        }
    // command line on top of everything
    vector<C *> path{w.root.get()};
    for (;;) {
      vector<C *> subs;
      for (auto &s: path.back()->subs)
        if (!s->builtin) subs.push_back(s.get());
      if (subs.empty()) break;
      path.push_back(subs[r.below(subs.size())]);
    }
    if (path.size() == 1) {
      vh::count("discarded_no_command");
      return;
    }
    std::map<string, string> given;
    vector<string> pre; // options of the root
    bool config_opt = r.chance(40);
    for (auto *f: k.flags)
      if (f->owner == w.root.get() && r.chance(25)) {
        if (f->type == T_BOOL) pre.push_back("--" + f->lng), given[f->key()] = cm::cb(true);
        else {
          string v = rnd_value(r, f->type, false), c;
          if (v.empty() || v.find_first_of("'\"") != string::npos || !parse_full(f->type, v, c)) continue;
          pre.push_back("--" + f->lng + "=" + v);
          given[f->key()] = c;
        }
      }
    for (size_t i = pre.size(); i > 1; i--) std::swap(pre[i - 1], pre[r.below(i)]);
    if (config_opt) {
      bool dir = r.chance(30);
      string p = g_root + (dir ? "/optdir/tst.yml" : "/opt.yml");
      size_t at = r.below(pre.size() + 1);
      // what the environment said stays
      std::set<string> keep(by_env);
      string d = k.document(r, keep);
      put(p, d);
      pre.insert(pre.begin() + (long) at, r.chance(50) ? "--config=" + (dir ? g_root + "/optdir" : p) : "--config=" + (dir ? g_root + "/optdir/" : p));
      loaded.push_back(dir && pre[at].back() == '/' ? g_root + "/optdir/tst.yml" : p);
      desc += "--config:\n" + d;
    }
    for (auto &[key, c]: given) k.want[key] = c;
    vector<string> av{"tst"};
    av.insert(av.end(), pre.begin(), pre.end());
    for (size_t i = 1; i < path.size(); i++) av.push_back(path[i]->lng);

    std::map<string, string> free_seen;
    std::map<string, bool> free_has;
    w.hooks.invoke = nullptr;
    Argv argv(av);
    vh::Capture cap;
    int rc = w.app->run(argv.argc(), argv.argv());
    cap.stop();
    vh::count("c29_runs");
    vh::count("c29_files", (int64_t) loaded.size());
    auto ctx = [&] { return "argv=" + vh::showv(av) + " env " + envs + "\n" + desc + "\n stderr=" + cap.err.substr(0, 300); };
    VH_CHECK(w.invs.size() == 1 && w.invs[0].c == path.back() && rc == path.back()->rc, "C29:dispatch", "handlers run " << w.invs.size() << " rc " << rc << "; " << ctx());
    if (w.invs.size() != 1) return;
    auto &st = cmdr::get_store();
    for (auto *f: k.flags) {
      string got = w.in_handler[f->key()];
      bool envy  = config_opt && by_env.count(f->key()) && !given.count(f->key());
      VH_CHECK(got == k.want[f->key()], string(envy ? "C29:env-config:" : "C29:option:") + tname(f->type), f->key() << " reads " << vh::show(got) << " want " << vh::show(k.want[f->key()]) << "; " << ctx());
      vh::count("c29_option_values");
    }
    for (auto &p: k.paths) {
      auto it = k.want.find(p);
      bool has = st.has(nullptr, p.c_str());
      if (it == k.want.end()) {
        // nothing said about it (or null): nothing stored, unless it is on the way to another key
        continue;
      }
      VH_CHECK(has, "C29:missing", vh::show(p) << " is not in the store; " << ctx());
      if (!has) continue;
      string got = canon2(st.get_raw(p.c_str()));
      VH_CHECK(got == it->second, "C29:value", vh::show(p) << " reads " << vh::show(got) << " want " << vh::show(it->second) << "; " << ctx());
      vh::count("c29_free_values");
    }
    bool lf = st.has(nullptr, "app.config.file.loaded");
    VH_CHECK(lf == !loaded.empty(), "C29:loaded-flag", "config.file.loaded present=" << lf << " although " << loaded.size() << " files are there; " << ctx());
    if (lf) {
      VH_CHECK(canon(st.get_raw("app.config.file.loaded")) == "b:1", "C29:loaded-flag", "config.file.loaded is false; " << ctx());
      string got = canon(st.get_raw("app.config.file.files"));
      VH_CHECK(got == cvs(loaded), "C29:loaded-files", "files " << vh::show(got) << " want " << vh::show(cvs(loaded)) << "; " << ctx());
    }
    string sig = std::to_string(loaded.size()) + (envform ? "e" : "") + (config_opt ? "c" : "") + std::to_string(by_env.size()) + std::to_string(given.size()) + "|";
    for (auto &[p, v]: k.want) sig += v.substr(0, 3);
    if (!loaded.empty()) vh::seen(sig);
    vh::sample(ctx());
  }

  // Damaged documents: what the yaml parser makes of them decides what has to happen.
  bool node_ok(YAML::Node const &n) {
    for (auto it: n) {
      if (!it.first.IsScalar() && !it.first.IsNull()) return false;
      if (it.second.IsMap() && !node_ok(it.second)) return false;
    }
    return true;
  }
  void damaged_case(Rng &r) {
    clean_env();
    Case29 k;
    if (!k.build(r)) {
      vh::count("discarded_names");
      return;
    }
    auto &w  = k.w;
    string d = k.document(r, {}, false);
    int n    = r.range(1, 4);
    for (int i = 0; i < n && !d.empty(); i++) {
      size_t at = r.below(d.size());
      switch (r.below(7)) {
        case 0: d.erase(at, 1 + r.below(5)); break;
        case 1: d.insert(at, 1, "[]{}:,#&*!|>'\"%@`\t \n-"[r.below(22)]); break;
        case 2: d[at] = (char) r.below(256); break;
        case 3: d.resize(at); break;
        case 4: d.insert(at, d.substr(r.below(d.size()), r.below(20))); break;
        case 5: d.insert(at, "\n" + string(r.below(6), ' ')); break;
        default: d.insert(at, r.chance(50) ? "- " : ": ");
      }
    }
    if (r.chance(8)) d = string(1 + r.below(60), "[{-\"'"[r.below(5)]);
    vector<C *> path{w.root.get()};
    for (;;) {
      vector<C *> subs;
      for (auto &s: path.back()->subs)
        if (!s->builtin) subs.push_back(s.get());
      if (subs.empty()) break;
      path.push_back(subs[r.below(subs.size())]);
    }
    if (path.size() == 1) return;
    put(g_root + "/work/tst.yml", d);
    bool dir_only = r.chance(4);
    if (dir_only) { // a directory without the file
      fs::remove(g_root + "/work/tst.yml");
      setenv("CONFIG_FILE", g_root.c_str(), 1);
    }
    bool throws = dir_only, map = true, ok = true;
    if (!dir_only) {
      try {
        auto nd = YAML::LoadFile(g_root + "/work/tst.yml");
        map     = nd.IsMap() || nd.IsNull();
        ok      = map && node_ok(nd);
      } catch (std::exception const &) {
        throws = true;
      }
    }
    vector<string> av{"tst"};
    for (size_t i = 1; i < path.size(); i++) av.push_back(path[i]->lng);
    w.read_store = false;
    Argv argv(av);
    vh::Capture cap;
    int rc = w.app->run(argv.argc(), argv.argv());
    cap.stop();
    auto ctx = [&] { return "document " + vh::show(d) + " argv=" + vh::showv(av) + " rc " + std::to_string(rc) + "\n stderr=" + cap.err.substr(0, 300); };
    if (throws) {
      vh::count("c29_malformed");
      VH_CHECK(w.invs.empty() && rc != 0, "C29:malformed", "a file which is no YAML: handlers run " << w.invs.size() << "; " << ctx());
      VH_CHECK(!cap.err.empty() || !cap.out.empty(), "C29:malformed-silent", "a file which is no YAML is not reported; " << ctx());
      vh::seen("malformed " + cap.err.substr(0, 80));
    } else if (ok) {
      vh::count("c29_wellformed");
      VH_CHECK(w.invs.size() == 1 && rc == path.back()->rc, "C29:wellformed", "a readable file: handlers run " << w.invs.size() << "; " << ctx());
      vh::seen("wellformed " + std::to_string(d.size()));
    } else
      vh::count("c29_odd_top");
    // either way nothing half done: at most one handler, and only with success
    VH_CHECK(w.invs.size() <= 1 && (w.invs.empty() ? rc != 0 : rc == path.back()->rc), "C29:outcome", "handlers run " << w.invs.size() << "; " << ctx());
    vh::sample(ctx());
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  return vh::drive(argc, argv, ro, [](int64_t, Rng &r) {
    enter_case();
    if (vh::opt().mode == "C29bad") damaged_case(r);
    else
      documents_case(r);
    leave_case();
  });
}
