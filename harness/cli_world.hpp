// The application under observation together with everything its callbacks recorded.
#pragma once
#include "cli_build.hpp"

using namespace cb;
using vh::Rng;
using Action = cmdr::opt::Action;

namespace {
  struct Inv {
    C *c;
    vector<string> rem;
  };
  struct Event {
    char k; // M global matched callback, H on_hit callback
    F *f;
    vector<string> rest{}; // the words that follow, as handed to an on_hit callback
    bool operator==(Event const &o) const { return k == o.k && f == o.f && rest == o.rest; }
  };
  struct CmdHit {
    C *c;
    vector<string> rest;
    bool operator==(CmdHit const &o) const { return c == o.c && rest == o.rest; }
  };
  string show_ev(vector<Event> const &v) {
    string s;
    for (auto &e: v) s += string(1, e.k) + ":" + (e.f ? e.f->key() : "?") + (e.k == 'H' ? vh::showv(e.rest) : "") + " ";
    return s;
  }
  struct World {
    std::unique_ptr<C> root;
    cmdr::app *app = nullptr;
    Hooks hooks;
    vector<Inv> invs;
    vector<Event> events;
    vector<CmdHit> cmd_hits;
    std::map<string, F *> by_key;
    vector<F *> flags;
    std::map<string, string> in_handler; // store as seen inside the handler
    bool read_store = false;
    int throw_kind  = 0;
    void index() {
      flags.clear();
      root->walk([&](C &c) {
        for (auto &f: c.flags) flags.push_back(f.get()), by_key[f->key()] = f.get();
      });
    }
    void snapshot() {
      auto &st = cmdr::get_store();
      for (auto *f: flags) in_handler[f->key()] = canon(st.get_raw(f->key()));
    }
    void build(bool with_invoke = true, char const *name = "tst", char const *ver = "1.2.3") {
      index();
      if (with_invoke)
        hooks.invoke = [this](C *c, cmdr::opt::cmd const &, string_array const &rem) {
          invs.push_back({c, rem});
          if (read_store) snapshot();
          return c->rc;
        };
      hooks.on_flag = [this](F *f, cmdr::opt::cmd const &, cmdr::opt::arg const &, string_array const &rest) {
        events.push_back({'H', f, rest});
        return Action::OK;
      };
      hooks.on_cmd = [this](C *c, string_array const &rest) {
        cmd_hits.push_back({c, rest});
        return Action::OK;
      };
      app = &new_app(name, ver);
      app->set_global_on_arg_matched_handlers([this](cmdr::opt::arg *a) {
        auto it = by_key.find(a->dotted_key());
        events.push_back({'M', it == by_key.end() ? nullptr : it->second});
        return Action::OK;
      });
      fill(*app, *root, &hooks);
    }
  };
  string shape(C &root) {
    std::ostringstream os;
    root.walk([&](C &c) {
      if (!c.builtin) os << c.subs.size() << "." << c.flags.size() << ";";
    });
    return os.str();
  }
  bool has_help_hit(Outcome const &o) {
    for (auto &h: o.hits)
      if (h.f->action == 1) return true;
    return false;
  }
  char const *kname(Outcome::Kind k) {
    static char const *n[] = {"invoke", "builtin", "help", "action", "unknown_flag", "unknown_cmd", "usage"};
    return n[k];
  }

  // values of environment variables and configuration texts
  bool bool_text(string const &t, string &canon_out) {
    string l;
    for (char c: t) l += (char) tolower((unsigned char) c);
    static const std::set<string> yes{"1", "t", "true", "y", "yes", "on"}, no{"0", "f", "false", "n", "no", "off"};
    if (yes.count(l)) canon_out = cm::cb(true);
    else if (no.count(l))
      canon_out = cm::cb(false);
    else
      return false;
    return true;
  }
  bool parse_any(int t, string const &v, string &c) { return t == T_BOOL ? bool_text(v, c) : parse_full(t, v, c); }
  string rnd_bool_text(Rng &r) {
    static const vector<string> w{"1", "0", "t", "f", "true", "false", "y", "n", "yes", "no", "on", "off"};
    string s = r.pick(w);
    for (char &c: s)
      if (r.chance(35)) c = (char) toupper((unsigned char) c);
    return s;
  }
  string rnd_env_value(Rng &r, int t) {
    string v, c;
    do {
      v = t == T_BOOL ? rnd_bool_text(r) : rnd_value(r, t, true);
    } while (!parse_any(t, v, c) || v.find('\0') != string::npos);
    return v;
  }
  string auto_env_name(string const &key) {
    string o;
    for (char c: key) o += (c == '.' || c == '-') ? '_' : (char) toupper((unsigned char) c);
    return o;
  }
} // namespace
