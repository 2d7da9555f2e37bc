// Specification of a random command-line application, and an independent model of what its command lines mean.
#pragma once
#include "common.hpp"
#include <memory>

namespace cm {
  using std::string;
  using std::vector;
  using vh::Rng;

  enum Type { T_BOOL,
              T_INT,
              T_LONG,
              T_UINT,
              T_DOUBLE,
              T_STR,
              T_CSTR,
              T_VINT,
              T_VSTR,
              T_FLOAT,
              T_SHORT,
              T_ULONG,
              T_VDBL,
              T_VBOOL,
              T_CPLX,
              T_N };
  inline char const *tname(int t) {
    static char const *n[] = {"bool", "int", "long", "unsigned", "double", "string", "cstr", "vector<int>", "vector<string>", "float", "short", "unsigned long", "vector<double>", "vector<bool>", "complex<double>"};
    return n[t];
  }

  struct C;
  struct F {
    string lng, sht;
    vector<string> al;
    int type = T_BOOL;
    string def_text;       // textual default
    string def_canon;      // canonical default
    string group, tg, desc, placeholder;
    vector<string> envs;
    bool required = false, hidden = false, builtin = false, special_only = false;
    int action  = 0; // builtin: 1 help, 2 screen action, 0 nothing
    int onhit   = 0; // user flags: 1 = callback installed
    C *owner    = nullptr;
    void *tag   = nullptr;
    string key() const;
  };
  struct C {
    string lng, sht;
    vector<string> al;
    string group, desc, ex;
    bool hidden = false, builtin = false;
    vector<std::unique_ptr<F>> flags;
    vector<std::unique_ptr<C>> subs;
    C *owner = nullptr;
    int rc   = 0;
    bool onhit = false;
    string key() const {
      if (!owner) return "app.cli";
      return owner->key() + "." + lng;
    }
    C *sub(string const &w) const {
      // long titles and aliases share one name space and are looked up before short titles
      for (auto &s: subs) {
        if (s->lng == w) return s.get();
        for (auto &a: s->al)
          if (a == w) return s.get();
      }
      for (auto &s: subs)
        if (!s->sht.empty() && s->sht == w) return s.get();
      return nullptr;
    }
    C *path_root() {
      C *p = this;
      while (p->owner) p = p->owner;
      return p;
    }
    template<class Fn>
    void walk(Fn const &fn) {
      fn(*this);
      for (auto &s: subs) s->walk(fn);
    }
  };
  inline string F::key() const { return owner->key() + "." + lng; }

  // ---- canonical values
  inline string cb(bool b) { return b ? "b:1" : "b:0"; }
  inline string ci(long long v) { return "i:" + std::to_string(v); }
  inline string cl(long long v) { return "l:" + std::to_string(v); }
  inline string cu(unsigned long long v) { return "u:" + std::to_string(v); }
  inline string cd(double d) {
    char b[64];
    std::snprintf(b, sizeof b, "d:%a", d);
    return b;
  }
  inline string cf(float d) {
    char b[64];
    std::snprintf(b, sizeof b, "f:%a", (double) d);
    return b;
  }
  inline string ch(int v) { return "h:" + std::to_string(v); }
  inline string cul(unsigned long v) { return "U:" + std::to_string(v); }
  inline string cc(double re, double im) {
    char b[100];
    std::snprintf(b, sizeof b, "c:%a,%a", re, im);
    return b;
  }
  inline string cvd(vector<double> const &v) {
    string o = "vd:";
    for (double i: v) o += cd(i) + ",";
    return o;
  }
  inline string cvb(vector<bool> const &v) {
    string o = "vb:";
    for (bool i: v) o += i ? "1" : "0";
    return o;
  }
  inline vector<string> elements(string s) {
    if (s.size() >= 2 && s.front() == '[' && s.back() == ']') s = s.substr(1, s.size() - 2);
    vector<string> o;
    std::stringstream ss(s);
    string p;
    while (std::getline(ss, p, ',')) o.push_back(p);
    if (!s.empty() && s.back() == ',') o.emplace_back();
    return o;
  }
  inline bool bool_elem(string p, bool &b) {
    for (char &c: p) c = (char) tolower((unsigned char) c);
    b = p == "1" || p == "true" || p == "yes" || p == "on" || p == "y" || p == "t";
    return b || p == "0" || p == "false" || p == "no" || p == "off" || p == "n" || p == "f";
  }
  // `a`, `bi`, `a+bi`, `a-bi` of plain integers
  inline bool cplx_parts(string const &v, double &re, double &im) {
    auto num = [](string const &s, double &x) {
      size_t i = s.size() && (s[0] == '-' || s[0] == '+');
      if (i == s.size() || s.size() > 9) return false;
      for (size_t k = i; k < s.size(); k++)
        if (!isdigit((unsigned char) s[k])) return false;
      x = atof(s.c_str());
      return true;
    };
    re = im = 0;
    if (v.empty()) return false;
    if (v.back() != 'i') return num(v, re);
    string b = v.substr(0, v.size() - 1);
    size_t p = b.find_last_of("+-");
    if (p == string::npos || p == 0) return num(b, im);
    return num(b.substr(0, p), re) && num(b.substr(p), im);
  }
  inline string cs(string const &s) { return "s:" + s; }
  inline string cvi(vector<int> const &v) {
    string o = "vi:";
    for (int i: v) o += std::to_string(i) + ",";
    return o;
  }
  inline string cvs(vector<string> const &v) {
    string o = "vs:";
    for (auto &i: v) o += i + "\x01";
    return o;
  }

  inline bool digits_prefix(string const &v, bool sgn, size_t &len) {
    size_t i = 0;
    if (sgn && i < v.size() && (v[i] == '-' || v[i] == '+')) i++;
    size_t d = i;
    while (i < v.size() && v[i] >= '0' && v[i] <= '9') i++;
    len = i;
    return i > d;
  }

  // parse `v` (complete text) as type t; false = not well-formed
  inline bool parse_full(int t, string const &v, string &canon) {
    errno     = 0;
    char *end = nullptr;
    size_t n;
    switch (t) {
      case T_INT:
      case T_SHORT:
      case T_LONG: {
        if (!digits_prefix(v, true, n) || n != v.size()) return false;
        long long x = strtoll(v.c_str(), &end, 10);
        if (errno) return false;
        if (t == T_INT && (x < -2147483648LL || x > 2147483647LL)) return false;
        if (t == T_SHORT && (x < -32768 || x > 32767)) return false;
        canon = t == T_INT ? ci(x) : t == T_SHORT ? ch((int) x) : cl(x);
        return true;
      }
      case T_ULONG:
      case T_UINT: {
        if (!digits_prefix(v, false, n) || n != v.size()) return false;
        unsigned long long x = strtoull(v.c_str(), &end, 10);
        if (errno || (t == T_UINT && x > 4294967295ULL)) return false;
        canon = t == T_UINT ? cu(x) : cul(x);
        return true;
      }
      case T_DOUBLE: {
        if (v.empty()) return false;
        for (char c: v)
          if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e')) return false;
        double d = strtod(v.c_str(), &end);
        if (*end || errno) return false;
        canon = cd(d);
        return true;
      }
      case T_FLOAT: {
        if (v.empty()) return false;
        for (char c: v)
          if (!((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e')) return false;
        float d = strtof(v.c_str(), &end);
        if (*end || errno) return false;
        canon = cf(d);
        return true;
      }
      case T_VDBL: {
        vector<double> o;
        for (auto &p: elements(v)) {
          string c;
          if (!parse_full(T_DOUBLE, p, c)) return false;
          o.push_back(strtod(p.c_str(), nullptr));
        }
        canon = cvd(o);
        return !o.empty();
      }
      case T_VBOOL: {
        vector<bool> o;
        bool b;
        for (auto &p: elements(v)) {
          if (!bool_elem(p, b)) return false;
          o.push_back(b);
        }
        canon = cvb(o);
        return !o.empty();
      }
      case T_CPLX: {
        double re, im;
        if (!cplx_parts(v, re, im)) return false;
        canon = cc(re, im);
        return true;
      }
      case T_STR:
      case T_CSTR: {
        string s = v;
        auto q   = [](char c) { return c == '"' || c == '\''; };
        if (s.size() >= 2 && q(s.front()) && s.back() == s.front()) {
          char qc = s.front();
          s       = s.substr(1, s.size() - 2);
          if (s.find(qc) != string::npos) return false;              // nested quotes: unspecified
          if (!s.empty() && (q(s.front()) || q(s.back()))) return false;
        } else if (!s.empty() && (q(s.front()) || q(s.back())))
          return false; // unbalanced quotes: unspecified
        canon = cs(s);
        return true;
      }
      case T_VINT: {
        vector<int> o;
        string s = v;
        if (s.size() >= 2 && s.front() == '[' && s.back() == ']') s = s.substr(1, s.size() - 2);
        std::stringstream ss(s);
        string p;
        if (s.empty() || s.back() == ',') return false;
        while (std::getline(ss, p, ',')) {
          string c;
          if (!parse_full(T_INT, p, c)) return false;
          o.push_back(atoi(p.c_str()));
        }
        canon = cvi(o);
        return true;
      }
      case T_VSTR: {
        vector<string> o;
        string s = v;
        if (s.size() >= 2 && s.front() == '[' && s.back() == ']') s = s.substr(1, s.size() - 2);
        std::stringstream ss(s);
        string p;
        if (s.empty() || s.back() == ',') return false;
        while (std::getline(ss, p, ',')) {
          if (p.empty()) return false;
          for (char c: p)
            if (!isalnum((unsigned char) c) && c != '-' && c != '_' && c != '.' && c != '/') return false;
          o.push_back(p);
        }
        canon = cvs(o);
        return true;
      }
      default: return false;
    }
  }

  // ---- random values (textual form)
  inline string rnd_text(Rng &r, bool hostile) {
    static const string plain = "abcdefXYZ0123456789-_./:@%+=,";
    static const string extra = " \t\"'#$*?!&|;<>()[]{}\\~^`\xc3\xa9\x7f\x01";
    int n = hostile && r.chance(1) ? r.range(60, 3000) : r.range(0, 12);
    string s;
    for (int i = 0; i < n; i++) {
      if (hostile && r.chance(35))
        s += extra[r.below(extra.size())];
      else
        s += plain[r.below(plain.size())];
    }
    return s;
  }
  inline string rnd_value(Rng &r, int t, bool hostile = true) {
    switch (t) {
      case T_INT: {
        int k = r.range(0, 5);
        if (k == 0) return "2147483647";
        if (k == 1) return "-2147483648";
        if (k == 2) return std::to_string(r.range(0, 9));
        return std::to_string((int) (uint32_t) r.u64() >> r.range(0, 24));
      }
      case T_LONG: {
        if (r.chance(10)) return "9223372036854775807";
        if (r.chance(10)) return "-9223372036854775808";
        return std::to_string((long long) r.u64() >> r.range(0, 60));
      }
      case T_UINT: return std::to_string((uint32_t) r.u64() >> r.range(0, 28));
      case T_DOUBLE: {
        char b[64];
        if (r.chance(30)) std::snprintf(b, sizeof b, "%d", r.range(-1000, 1000));
        else if (r.chance(50)) std::snprintf(b, sizeof b, "%.3f", (double) (int) r.u64() / 1000.0);
        else std::snprintf(b, sizeof b, "%de%d", r.range(1, 99), r.range(-20, 20));
        return b;
      }
      case T_STR:
      case T_CSTR: {
        string s = rnd_text(r, hostile);
        if (hostile && r.chance(12)) {
          string u;
          for (char c: s)
            if (c != '"' && c != '\'') u += c;
          return r.chance(50) ? "\"" + u + "\"" : "'" + u + "'";
        }
        return s;
      }
      case T_VINT: {
        string s;
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(r.range(-99, 999));
        return r.chance(30) ? "[" + s + "]" : s;
      }
      case T_VSTR: {
        string s;
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) {
          s += i ? "," : "";
          int l = r.range(1, 4);
          for (int j = 0; j < l; j++) s += (char) ('a' + r.below(26));
        }
        return r.chance(30) ? "[" + s + "]" : s;
      }
      case T_FLOAT: {
        char b[64];
        if (r.chance(40)) std::snprintf(b, sizeof b, "%d", r.range(-1000, 1000));
        else std::snprintf(b, sizeof b, "%.2f", r.range(-99999, 99999) / 100.0);
        return b;
      }
      case T_SHORT: return r.chance(15) ? (r.chance(50) ? "32767" : "-32768") : std::to_string(r.range(-32768, 32767) >> r.range(0, 12));
      case T_ULONG: return r.chance(15) ? "18446744073709551615" : std::to_string((unsigned long) r.u64() >> r.range(0, 60));
      case T_VDBL: {
        string s;
        int n = r.range(1, 4);
        for (int i = 0; i < n; i++) s += (i ? "," : "") + rnd_value(r, T_FLOAT);
        return r.chance(30) ? "[" + s + "]" : s;
      }
      case T_VBOOL: {
        static char const *w[] = {"true", "false", "1", "0", "yes", "No", "ON", "off", "T", "n"};
        string s;
        int n = r.range(1, 5);
        for (int i = 0; i < n; i++) s += string(i ? "," : "") + w[r.below(10)];
        return r.chance(30) ? "[" + s + "]" : s;
      }
      case T_CPLX: {
        string re = std::to_string(r.range(-999, 999)), im = std::to_string(r.range(0, 999)) + "i";
        int k = r.range(0, 3);
        return k == 0 ? re : k == 1 ? im : re + (k == 2 ? "+" : "-") + im;
      }
      default: return "";
    }
  }

  // ---- application generator
  struct GenOpt {
    int max_depth = 3, max_subs = 3, max_flags = 4;
    bool values = true, overlap = true, toggles = false, envs = false, required = false;
    bool no_space_in_default = true;
    bool large = false; // deep chains, many definitions, long titles
  };
  inline string rnd_title(Rng &r, bool overlap, bool shrt, bool large = false) {
    static const vector<string> words = {"port", "po", "host", "ho-st", "user", "user-name", "verb", "ver", "versi", "helper", "he", "out", "output", "output-file", "tr", "de", "deb", "nocolor", "x", "y", "zz", "r10", "conf", "config", "colors", "col"};
    if (!shrt && r.chance(overlap ? 45 : 70)) return r.pick(words);
    static const string ab = "abcd", wide = "abcdefghijklmnopqrstuvwxyz";
    string const &al = overlap ? ab : wide;
    int n = shrt ? r.range(1, overlap ? 3 : 2) : r.range(1, large && r.chance(40) ? 70 : 4);
    string s;
    for (int i = 0; i < n; i++) s += al[r.below(al.size())];
    if (!shrt && r.chance(10) && n > 1) s.insert(1, "-");
    return s;
  }
  struct Names {
    std::set<string> lng, sht;
  };
  template<class N>
  inline bool assign_titles(Rng &r, N &o, Names &u, bool overlap, bool large = false) {
    for (int t = 0; t < 40; t++) {
      string l = rnd_title(r, overlap, false, large);
      if (u.lng.count(l)) continue;
      u.lng.insert(l);
      o.lng = l;
      if (r.chance(75))
        for (int k = 0; k < 10; k++) {
          string s = rnd_title(r, overlap, true);
          if (u.sht.count(s)) continue;
          u.sht.insert(s);
          o.sht = s;
          break;
        }
      int na = r.chance(40) ? r.range(1, large ? 5 : 2) : 0;
      for (int k = 0; k < na; k++) {
        string s = rnd_title(r, overlap, false, large);
        if (u.lng.count(s)) continue;
        u.lng.insert(s);
        o.al.push_back(s);
      }
      return true;
    }
    return false;
  }
  inline F *bflag(C &c, char const *l, char const *s, vector<string> al, int action = 0, vector<string> envs = {}, int type = T_BOOL, string dt = "", string dc = "b:0") {
    auto f = std::make_unique<F>();
    f->lng = l, f->sht = s ? s : "", f->al = std::move(al), f->builtin = true, f->action = action, f->owner = &c, f->envs = std::move(envs), f->type = type, f->def_text = dt, f->def_canon = dc;
    c.flags.push_back(std::move(f));
    return c.flags.back().get();
  }
  inline C *bcmd(C &c, char const *l, char const *s, vector<string> al) {
    auto f = std::make_unique<C>();
    f->lng = l, f->sht = s ? s : "", f->al = std::move(al), f->builtin = true, f->owner = &c;
    c.subs.push_back(std::move(f));
    return c.subs.back().get();
  }
  // the documented built-in commands and flags every application has
  inline std::unique_ptr<C> builtin_root() {
    auto root = std::make_unique<C>();
    C &c      = *root;
    bcmd(c, "help", "h", {"info", "usages"});
    bflag(c, "help", "h", {"?", "info", "usages"}, 1, {"HELP"});
    bcmd(c, "version", "V", {"versions", "ver"});
    bflag(c, "version", "V", {"versions", "ver"}, 2, {"VERSIONS"});
    bflag(c, "version-sim", "vs", {}, 0, {"VERSION_SIM"}, T_CSTR, "", "s:");
    bflag(c, "build-info", "#", {"bdinfo"}, 2);
    bflag(c, "verbose", "v", {}, 0, {"VERBOSE"});
    bflag(c, "quiet", "q", {}, 0, {"QUIET"});
    bcmd(c, "print", "pr", {"display"});
    bflag(c, "feel-like", "bet", {"bet"}, 0, {"FEEL_LIKE"});
    bflag(c, "no-color", "nc", {}, 0, {"PLAIN", "NO_COLOR"});
    bflag(c, "shell-completion", "sc", {}, 0, {"SHELL_COMPLETION"});
    bflag(c, "tree", "", {}, 2);
    bflag(c, "debug", "D", {"debug-mode"}, 3, {"DEBUG"});
    bflag(c, "cli", "", {}, 0);
    bflag(c, "trace", "tr", {"trace-mode"}, 0, {"TRACE"});
    C *g = bcmd(c, "generate", "g", {"gen"});
    bflag(*g, "feel-like", "bet", {"bet"}, 0, {"FEEL_LIKE"});
    bflag(*g, "dry-run", "dry", {"dry"}, 0, {"DRY_RUN"});
    bflag(*g, "stdout", "c", {}, 0, {"STDOUT"});
    C *d = bcmd(*g, "doc", "d", {"markdown", "docx", "pdf", "tex"});
    bflag(*d, "pages", "pg", {});
    bflag(*d, "start-number", "sn", {"start"}, 0, {}, T_INT, "1", "i:1");
    bcmd(*g, "manual", "m", {"man"});
    C *s = bcmd(*g, "shell", "s", {"sh", "comp", "completion"});
    bflag(*s, "drop", "d", {"remove", "uninstall"});
    bflag(*s, "auto", "a", {}, 0, {}, T_BOOL, "", "b:1")->tg = "which-shell";
    bflag(*s, "bash", "b", {})->tg                            = "which-shell";
    bflag(*s, "zsh", "z", {})->tg                             = "which-shell";
    bflag(*s, "fish", "f", {})->tg                            = "which-shell";
    bflag(*s, "name", "n", {}, 0, {}, T_CSTR, "", "s:");
    return root;
  }
  inline void add_flags(Rng &r, C &c, Names &u, GenOpt const &g, int n) {
    for (int i = 0; i < n; i++) {
      auto f = std::make_unique<F>();
      if (!assign_titles(r, *f, u, g.overlap, g.large)) continue;
      f->owner = &c;
      f->type  = (!g.values || r.chance(45)) ? (int) T_BOOL : (int) r.below(T_N);
      if (f->type == T_BOOL) {
        bool b       = r.chance(15);
        f->def_text  = b ? "1" : "";
        f->def_canon = cb(b);
      } else {
        do {
          f->def_text = rnd_value(r, f->type, false);
        } while (!parse_full(f->type, f->def_text, f->def_canon));
      }
      f->onhit = r.chance(40);
      c.flags.push_back(std::move(f));
    }
  }
  inline void gen_cmd(Rng &r, C &c, Names &u, GenOpt const &g, int depth) {
    Names cu;
    for (auto &s: c.subs) {
      cu.lng.insert(s->lng);
      if (!s->sht.empty()) cu.sht.insert(s->sht);
      for (auto &a: s->al) cu.lng.insert(a);
    }
    add_flags(r, c, u, g, r.range(depth == 0 ? 1 : 0, g.large && r.chance(20) ? 25 : g.max_flags));
    int ns = depth >= g.max_depth ? 0 : r.range(depth == 0 ? 1 : 0, g.max_subs);
    if (g.large) ns = depth == 0 ? r.range(1, 9) : depth == 1 ? r.range(0, 3) : depth >= 8 ? 0 : r.range(0, 10) < 7 ? 1 : 0;
    for (int i = 0; i < ns; i++) {
      auto s = std::make_unique<C>();
      if (!assign_titles(r, *s, cu, g.overlap, g.large)) continue;
      s->owner = &c;
      s->rc    = r.chance(30) ? r.range(-3, 9) : 0;
      Names fu;
      gen_cmd(r, *s, fu, g, depth + 1);
      c.subs.push_back(std::move(s));
    }
  }
  inline std::unique_ptr<C> gen_app(Rng &r, GenOpt const &g) {
    auto root = builtin_root();
    Names u;
    for (auto &f: root->flags) {
      u.lng.insert(f->lng);
      if (!f->sht.empty()) u.sht.insert(f->sht);
      for (auto &a: f->al) u.lng.insert(a);
    }
    gen_cmd(r, *root, u, g, 0);
    return root;
  }

  // ---- the model of a run
  struct Hit {
    F *f;
    string title;
    string canon; // value after this hit
    int kind = 0; // 0 short, 1 long, 2 special
    int at   = 0; // the word it stands in
    int next = 0; // the word after what it consumed
  };
  struct Outcome {
    bool in_domain = true;
    string why;
    enum Kind { INVOKE,
                BUILTIN,
                HELP,
                ACTION,
                UNKNOWN_FLAG,
                UNKNOWN_CMD,
                USAGE } kind = USAGE;
    C *leaf             = nullptr;
    vector<C *> path;
    vector<int> path_at; // the word that matched each command of the path
    vector<string> remains;
    vector<Hit> hits;
  };
  struct ModelOpt {
    bool unknown_cmd_err = true, unknown_flag_err = true;
    bool feel_like = false; // the root flag feel-like is on (an earlier run switched it on)
    bool longest = true; // set_match_longest_first
  };
  inline F *find_flag(vector<C *> const &path, int kind, string const &rest, string &title, bool longest = true) {
    F *best  = nullptr;
    size_t n = 0;
    for (size_t i = path.size(); i-- > 0;) {
      for (auto &f: path[i]->flags) {
        auto test = [&](string const &t) {
          if (!t.empty() && (!best || (longest ? t.size() > n : t.size() < n)) && rest.compare(0, t.size(), t) == 0) best = f.get(), n = t.size(), title = t;
        };
        if (kind == 0) test(f->sht);
        else {
          test(f->lng);
          for (auto &a: f->al) test(a);
        }
      }
    }
    return best;
  }
  inline Outcome model_run(C &root, vector<string> const &av, ModelOpt const &mo = {}) {
    Outcome o;
    o.path.push_back(&root);
    bool help = false, unknown = false, feel = mo.feel_like;
    int screen_at = -1;
    vector<string> pass;
    auto out = [&](char const *w) {
      o.in_domain = false;
      o.why       = w;
      return o;
    };
    for (size_t i = 1; i < av.size(); i++) {
      string const &tok = av[i];
      if (tok.empty()) continue;
      bool sp = tok.size() >= 2 && tok[0] == '~' && tok[1] == '~';
      if (sp || tok[0] == '-' || tok[0] == '/') {
        int kind = 0;
        string text;
        if (sp) kind = 2, text = tok.substr(2);
        else if (tok.size() >= 2 && tok[0] == '-' && tok[1] == '-') {
          if (tok.size() == 2) {
            pass.assign(av.begin() + (long) i + 1, av.end());
            break;
          }
          kind = 1, text = tok.substr(2);
        } else
          text = tok.substr(1);
        size_t pos = 0;
        do {
          string title, rest = text.substr(pos);
          F *f = find_flag(o.path, kind == 0 ? 0 : 1, rest, title, mo.longest);
          if (!f) {
            if (mo.unknown_flag_err) {
              o.kind = Outcome::UNKNOWN_FLAG;
              return o;
            }
            unknown = true;
            break;
          }
          size_t used = title.size();
          Hit h{f, title, ""};
          h.kind = kind, h.at = (int) i;
          if (f->type == T_BOOL) {
            char c = pos + used < text.size() ? text[pos + used] : 0;
            bool v = true;
            if (c == '-') v = false, used++;
            else if (c == '+')
              used++;
            h.canon = cb(v);
          } else {
            string rem = rest.substr(used);
            if (!rem.empty()) {
              size_t eq = rem[0] == '=' ? 1 : 0;
              string v  = rem.substr(eq);
              if (v.empty() || v == "''" || v == "\"\"") return out("empty attached value");
              if (f->type == T_INT || f->type == T_LONG || f->type == T_UINT || f->type == T_SHORT || f->type == T_ULONG) {
                size_t n;
                if (!digits_prefix(v, f->type != T_UINT && f->type != T_ULONG, n)) return out("malformed number");
                if (!parse_full(f->type, v.substr(0, n), h.canon)) return out("number range");
                used += eq + n;
              } else {
                if (!parse_full(f->type, v, h.canon)) return out("malformed value");
                used += rem.size();
              }
            } else {
              if (i + 1 >= av.size()) return out("missing value");
              string const &v = av[++i];
              if (!parse_full(f->type, v, h.canon)) return out("malformed value");
            }
          }
          h.next = (int) i + 1;
          o.hits.push_back(h);
          if (f->builtin && f->lng == "feel-like" && !f->owner->owner) feel = h.canon == "b:1";
          if (f->action == 1) {
            if (h.canon == "b:0") return out("help switched off");
            help = true;
          }
          if (f->action == 2 || (f->action == 3 && kind == 2)) screen_at = (int) i;
          pos += used;
        } while (pos < text.size());
        continue;
      }
      C *cur = o.path.back();
      if (cur->subs.empty()) {
        o.remains.push_back(tok);
        continue;
      }
      C *s = cur->sub(tok);
      if (s) {
        o.path.push_back(s);
        o.path_at.push_back((int) i);
        continue;
      }
      if (mo.unknown_cmd_err) {
        if (feel) return out("unknown command in feel-like mode");
        o.kind = Outcome::UNKNOWN_CMD;
        return o;
      }
      unknown = true;
    }
    (void) unknown;
    o.remains.insert(o.remains.end(), pass.begin(), pass.end());
    if (screen_at >= 0) {
      if (screen_at != (int) av.size() - 1 || help) return out("screen request not last");
      if (o.hits.back().f->action < 2) return out("screen request not last");
      o.kind = Outcome::ACTION;
      return o;
    }
    if (help) {
      o.kind = Outcome::HELP;
      return o;
    }
    o.leaf = o.path.back();
    if (!o.leaf->subs.empty()) {
      o.kind = Outcome::USAGE;
      o.leaf = nullptr;
      return o;
    }
    o.kind = o.leaf->builtin ? Outcome::BUILTIN : Outcome::INVOKE;
    return o;
  }

  // ---- command line generator (its intention is irrelevant: the model decides what the words mean)
  struct ArgvOpt {
    int pct_unknown = 4, pct_builtin = 25, pct_pass = 20, pct_help = 3, flags_max = 5, words_max = 4, pct_stop_early = 10;
    bool large = false; // many words and pieces
    bool plus_minus = true, combos = true, values_hostile = true, special = true;
  };
  inline string any_title(Rng &r, F *f, int &kind) {
    vector<string> l{f->lng};
    for (auto &a: f->al) l.push_back(a);
    if (!f->sht.empty() && r.chance(45)) {
      kind = 0;
      return f->sht;
    }
    kind = 1;
    return r.pick(l);
  }
  inline void emit_flag(Rng &r, vector<string> &av, vector<C *> const &path, ArgvOpt const &g) {
    vector<F *> cand;
    bool bi = r.chance(g.pct_builtin);
    for (auto *c: path)
      for (auto &f: c->flags)
        if (f->builtin == bi && f->action < 2 && (f->action != 1 || r.chance(g.pct_help))) cand.push_back(f.get());
    if (cand.empty()) return;
    int kind;
    F *f     = r.pick(cand);
    string t = any_title(r, f, kind);
    string tok;
    bool sp = g.special && kind == 1 && r.chance(4);
    tok     = kind == 0 ? (r.chance(6) ? "/" : "-") : sp ? "~~"
                                                         : "--";
    tok += t;
    auto suffix = [&](F *ff, bool last) {
      if (ff->type == T_BOOL) {
        if (g.plus_minus && r.chance(15)) tok += r.chance(50) ? "+" : "-";
        return;
      }
      string v = rnd_value(r, ff->type, g.values_hostile);
      int form = last ? r.range(0, 2) : r.range(0, 1);
      if (form == 0) tok += "=" + v;
      else if (form == 1)
        tok += v;
      else {
        av.push_back(tok);
        tok = v;
      }
    };
    // combined flags in one token
    if (g.combos && r.chance(25)) {
      int n = r.range(1, g.large && r.chance(30) ? 12 : 3);
      F *cur = f;
      for (int i = 0; i < n; i++) {
        if (cur->type != T_BOOL && cur->type != T_INT && cur->type != T_UINT && cur->type != T_SHORT && cur->type != T_ULONG) break;
        suffix(cur, false);
        vector<F *> c2;
        for (auto *c: path)
          for (auto &x: c->flags)
            if (x->action == 0 && (kind != 0 || !x->sht.empty())) c2.push_back(x.get());
        if (c2.empty()) break;
        cur = r.pick(c2);
        tok += kind == 0 ? cur->sht : cur->lng;
      }
      suffix(cur, true);
    } else
      suffix(f, true);
    av.push_back(tok);
  }
  inline vector<string> gen_argv(Rng &r, C &root, ArgvOpt const &g) {
    vector<string> av{"prog"};
    vector<C *> path{&root};
    int budget = r.range(0, g.large && r.chance(30) ? 40 : g.flags_max);
    auto flags = [&](int n) {
      for (int i = 0; i < n && budget > 0; i++, budget--) emit_flag(r, av, path, g);
    };
    flags(r.range(0, 2));
    for (;;) {
      C *cur = path.back();
      if (cur->subs.empty()) break;
      if (r.chance(g.pct_stop_early)) break;
      vector<C *> user;
      for (auto &s: cur->subs)
        if (!s->builtin || cur->builtin || r.chance(4)) user.push_back(s.get());
      if (user.empty()) break;
      C *s = r.pick(user);
      if (s->builtin && s->lng == "shell") break; // has effects outside the process
      vector<string> names{s->lng};
      if (!s->sht.empty()) names.push_back(s->sht);
      for (auto &a: s->al) names.push_back(a);
      string w = r.pick(names);
      if (r.chance(g.pct_unknown)) w += "q";
      av.push_back(w);
      path.push_back(s);
      flags(r.range(0, 2));
    }
    int nw = r.range(0, g.large && r.chance(40) ? 80 : g.words_max);
    for (int i = 0; i < nw; i++) {
      string w;
      int k = r.range(0, 9);
      if (k == 0) {
        // a word that looks like a command name
        vector<string> n;
        root.walk([&](C &c) {
          if (c.owner) n.push_back(c.lng);
        });
        if (!n.empty()) w = r.pick(n);
      } else if (k == 1)
        w = "a b";
      else
        w = rnd_text(r, true);
      if (w.empty() || w[0] == '-' || w[0] == '/' || (w.size() > 1 && w[0] == '~' && w[1] == '~')) w = "w" + w;
      av.push_back(w);
      flags(r.chance(30) ? 1 : 0);
    }
    flags(budget);
    if (r.chance(g.pct_unknown)) av.push_back(r.chance(50) ? "--zz9-none" : "-Z");
    if (r.chance(g.pct_pass)) {
      av.push_back("--");
      int n = r.range(0, g.large && r.chance(40) ? 60 : 4);
      for (int i = 0; i < n; i++) {
        int k = r.range(0, 5);
        av.push_back(k == 0 ? "--" : k == 1 ? "--help"
                          : k == 2          ? "-v"
                          : k == 3          ? ""
                                            : rnd_text(r, true));
      }
    }
    return av;
  }
} // namespace cm
