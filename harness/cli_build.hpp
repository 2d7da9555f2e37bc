// Builds the real cmdr application from a specification (cli_model.hpp), and reads its state back.
#pragma once
#include "cli_model.hpp"
#include <cmdr-cxx.hh>
#include <complex>

namespace cb {
  using namespace cm;

  inline string canon(cmdr::vars::variable const &v) {
    auto const &t = v.type();
    if (!v.has_value()) return "<empty>";
    auto const &a = v.underlying_value();
    if (t == typeid(bool)) return cm::cb(std::any_cast<bool>(a));
    if (t == typeid(int)) return ci(std::any_cast<int>(a));
    if (t == typeid(long)) return cl(std::any_cast<long>(a));
    if (t == typeid(unsigned)) return cu(std::any_cast<unsigned>(a));
    if (t == typeid(double)) return cd(std::any_cast<double>(a));
    if (t == typeid(std::string)) return cs(std::any_cast<std::string>(a));
    if (t == typeid(char const *)) return cs(std::any_cast<char const *>(a));
    if (t == typeid(vector<int>)) return cvi(std::any_cast<vector<int>>(a));
    if (t == typeid(float)) return cf(std::any_cast<float>(a));
    if (t == typeid(short)) return ch(std::any_cast<short>(a));
    if (t == typeid(unsigned long)) return cul(std::any_cast<unsigned long>(a));
    if (t == typeid(vector<double>)) return cvd(std::any_cast<vector<double>>(a));
    if (t == typeid(vector<bool>)) return cvb(std::any_cast<vector<bool>>(a));
    if (t == typeid(std::complex<double>)) return cc(std::any_cast<std::complex<double>>(a).real(), std::any_cast<std::complex<double>>(a).imag());
    if (t == typeid(vector<string>)) return cvs(std::any_cast<vector<string>>(a));
    return string("<type ") + t.name() + ">";
  }

  using FlagHit = std::function<cmdr::opt::Action(F *, cmdr::opt::cmd const &, cmdr::opt::arg const &, string_array const &)>;
  using CmdInv  = std::function<int(C *, cmdr::opt::cmd const &, string_array const &)>;

  struct Hooks {
    FlagHit on_flag;
    CmdInv pre, invoke, post;
    std::function<cmdr::opt::Action(C *, string_array const &)> on_cmd;
  };

  template<class O>
  inline void titles(O &o, string const &l, string const &s, vector<string> const &al) {
    char const *sp = s.empty() ? nullptr : s.c_str();
    if (al.empty()) o(l.c_str(), sp);
    else if (al.size() == 1)
      o(l.c_str(), sp, al[0].c_str());
    else if (al.size() == 2)
      o(l.c_str(), sp, al[0].c_str(), al[1].c_str());
    else if (al.size() == 3)
      o(l.c_str(), sp, al[0].c_str(), al[1].c_str(), al[2].c_str());
    else if (al.size() == 4)
      o(l.c_str(), sp, al[0].c_str(), al[1].c_str(), al[2].c_str(), al[3].c_str());
    else
      o(l.c_str(), sp, al[0].c_str(), al[1].c_str(), al[2].c_str(), al[3].c_str(), al[4].c_str());
  }
  inline void decorate(cmdr::opt::opt &o, F *f, Hooks const *h) {
    titles(o, f->lng, f->sht, f->al);
    if (!f->group.empty()) o.group(f->group.c_str());
    if (!f->tg.empty()) o.toggle_group(f->tg.c_str());
    if (!f->desc.empty()) o.description(f->desc.c_str());
    if (!f->placeholder.empty()) o.placeholder(f->placeholder.c_str());
    if (f->required) o.required();
    if (f->hidden) o.hidden();
    if (f->envs.size() == 1) o.env_vars(f->envs[0].c_str());
    if (f->envs.size() == 2) o.env_vars(f->envs[0].c_str(), f->envs[1].c_str());
    if (f->envs.size() >= 3) o.env_vars(f->envs[0].c_str(), f->envs[1].c_str(), f->envs[2].c_str());
    if (h && f->onhit && h->on_flag) {
      auto cbk = h->on_flag;
      o.on_hit([f, cbk](cmdr::opt::cmd const &c, cmdr::opt::arg const &a, string_array const &r) { return cbk(f, c, a, r); });
    }
  }
  // the equivalent spellings that attach a definition to its command
  template<class P, class O>
  inline void attach(P &parent, O &o, string const &title) {
    switch (std::hash<string>{}(title + "attach") % 8) {
      case 0: parent + o; break;
      case 1: parent.opt(o.get()); break;
      case 2: parent.option(o.get()); break;
      default: parent += o; break;
    }
  }
  template<class P>
  inline void add_flag(P &parent, F *f, Hooks const *h) {
    switch (f->type) {
      case T_BOOL: {
        if (f->def_text == "1") {
          cmdr::opt::opt o{true};
          decorate(o, f, h);
          attach(parent, o, f->lng);
        } else if (f->def_text == "0") {
          cmdr::opt::opt o{false};
          decorate(o, f, h);
          attach(parent, o, f->lng);
        } else {
          cmdr::opt::opt o{};
          decorate(o, f, h);
          attach(parent, o, f->lng);
        }
        break;
      }
      case T_INT: {
        cmdr::opt::opt o{(int) strtol(f->def_text.c_str(), nullptr, 10)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_LONG: {
        cmdr::opt::opt o{(long) strtol(f->def_text.c_str(), nullptr, 10)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_UINT: {
        cmdr::opt::opt o{(unsigned) strtoul(f->def_text.c_str(), nullptr, 10)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_DOUBLE: {
        cmdr::opt::opt o{strtod(f->def_text.c_str(), nullptr)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_FLOAT: {
        cmdr::opt::opt o{strtof(f->def_text.c_str(), nullptr)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_SHORT: {
        cmdr::opt::opt o{(short) atoi(f->def_text.c_str())};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_ULONG: {
        cmdr::opt::opt o{strtoul(f->def_text.c_str(), nullptr, 10)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_VDBL: {
        vector<double> v;
        for (auto &p: elements(f->def_text)) v.push_back(strtod(p.c_str(), nullptr));
        cmdr::opt::opt o{v};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_VBOOL: {
        vector<bool> v;
        bool x;
        for (auto &p: elements(f->def_text)) bool_elem(p, x), v.push_back(x);
        cmdr::opt::opt o{v};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_CPLX: {
        double re, im;
        cplx_parts(f->def_text, re, im);
        cmdr::opt::opt o{std::complex<double>(re, im)};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_STR: {
        cmdr::opt::opt o{f->def_text};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_CSTR: {
        char const *p = f->def_text.c_str();
        cmdr::opt::opt o{p};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_VINT: {
        vector<int> v;
        std::stringstream ss(f->def_text);
        string p;
        string t = f->def_text;
        if (!t.empty() && t[0] == '[') t = t.substr(1, t.size() - 2);
        ss.str(t);
        while (std::getline(ss, p, ',')) v.push_back(atoi(p.c_str()));
        cmdr::opt::opt o{v};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
      case T_VSTR: {
        vector<string> v;
        string p, t = f->def_text;
        if (!t.empty() && t[0] == '[') t = t.substr(1, t.size() - 2);
        std::stringstream ss(t);
        while (std::getline(ss, p, ',')) v.push_back(p);
        cmdr::opt::opt o{v};
        decorate(o, f, h);
        attach(parent, o, f->lng);
        break;
      }
    }
  }
  template<class P>
  inline void add_cmd(P &parent, C *c, Hooks const *h);
  template<class P>
  inline void fill(P &parent, C &c, Hooks const *h) {
    for (auto &f: c.flags)
      if (!f->builtin) add_flag(parent, f.get(), h);
    for (auto &s: c.subs)
      if (!s->builtin) add_cmd(parent, s.get(), h);
  }
  template<class P>
  inline void add_cmd(P &parent, C *c, Hooks const *h) {
    cmdr::opt::sub_cmd s{};
    titles(s, c->lng, c->sht, c->al);
    if (!c->group.empty()) s.group(c->group.c_str());
    if (!c->desc.empty()) s.description(c->desc.c_str());
    if (!c->ex.empty()) s.examples(c->ex.c_str());
    if (c->hidden) s.hidden();
    if (h) {
      if (h->invoke) s.on_invoke([c, fn = h->invoke](cmdr::opt::cmd const &x, string_array const &r) { return fn(c, x, r); });
      if (h->pre) s.on_pre_invoke([c, fn = h->pre](cmdr::opt::cmd const &x, string_array const &r) { return fn(c, x, r); });
      if (h->post) s.on_post_invoke([c, fn = h->post](cmdr::opt::cmd const &x, string_array const &r) { return fn(c, x, r); });
      if (h->on_cmd && c->onhit) s.on_hit([c, fn = h->on_cmd](cmdr::opt::cmd const &, string_array const &r) { return fn(c, r); });
    }
    attach(parent, s, c->lng);
    fill(*parent.last_added_command(), *c, h);
  }
  inline cmdr::app &new_app(char const *name = "tst", char const *ver = "1.2.3") { return cmdr::cli(name, ver, "author", "copyright", "desc of app", "examples"); }

  // find the real definition objects
  inline cmdr::opt::cmd *real_cmd(cmdr::app &app, C *c) {
    if (!c->owner) return &app;
    auto *p = real_cmd(app, c->owner);
    auto &x = (*p)(c->lng.c_str());
    return x.valid() ? &x : nullptr;
  }
  inline cmdr::opt::arg *real_arg(cmdr::app &app, F *f) {
    auto *p = real_cmd(app, f->owner);
    if (!p) return nullptr;
    auto &x = (*p)[f->lng.c_str()];
    return x.valid() ? &x : nullptr;
  }
  struct Argv {
    vector<string> keep;
    vector<char *> p;
    explicit Argv(vector<string> const &av)
        : keep(av) {
      for (auto &s: keep) p.push_back(&s[0]);
      p.push_back(nullptr);
    }
    int argc() const { return (int) keep.size(); }
    char **argv() { return p.data(); }
  };
  inline void clean_env() {
    clearenv();
    setenv("PATH", "/usr/bin:/bin", 1);
    setenv("HOME", vh::opt().scratch.c_str(), 1);
    setenv("TERM", "xterm", 1);
  }
  inline string describe(C &root) {
    std::ostringstream os;
    root.walk([&](C &c) {
      if (c.builtin) return;
      os << "\n  cmd " << c.key() << " (" << c.lng << "," << c.sht << "," << vh::showv(c.al) << ")";
      for (auto &f: c.flags)
        if (!f->builtin) os << "\n     flag " << f->lng << "," << f->sht << "," << vh::showv(f->al) << " " << tname(f->type) << " def=" << vh::show(f->def_text) << (f->tg.empty() ? "" : " tg=" + f->tg) << (f->required ? " REQ" : "") << (f->envs.empty() ? "" : " env=" + vh::showv(f->envs));
    });
    return os.str();
  }
} // namespace cb
