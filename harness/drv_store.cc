// C11 store vs. model map, C12 store under concurrency, C13 text of typed values.
#include "common.hpp"
#include <cmdr11/cmdr11.hh>

#include <chrono>
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <list>
#include <thread>

using std::string;
using std::vector;
using vh::Rng;
using cmdr::vars::store;
using cmdr::vars::variable;

namespace {
  variable mk(std::any const &a) { return variable{a}; }
  template<class T>
  struct is_vec : std::false_type {};
  template<class T>
  struct is_vec<vector<T>> : std::true_type {};
  template<class T>
  string lit(T const &v) {
    std::ostringstream os;
    os.precision(30);
    if constexpr (std::is_same_v<T, bool>) os << (v ? "true" : "false");
    else if constexpr (sizeof(T) == 1 && std::is_arithmetic_v<T>)
      os << (int) v;
    else
      os << v;
    return os.str();
  }
  template<class T>
  string cn(T const &v) { // type and value
    string s = string(typeid(T).name()) + ":";
    if constexpr (is_vec<T>::value) {
      s += "[";
      for (auto const &x: v) s += lit((typename T::value_type) x) + "|";
      return s + "]";
    } else if constexpr (std::is_same_v<T, std::chrono::seconds> || std::is_same_v<T, std::chrono::nanoseconds>)
      return s + std::to_string(v.count());
    else
      return s + lit(v);
  }
  string canon(variable const &v) {
    if (!v.has_value()) return "<empty>";
    auto const &a = v.underlying_value();
    auto const &t = v.type();
#define TRY(T) \
  if (t == typeid(T)) return cn(std::any_cast<T const &>(a));
    TRY(bool) TRY(char) TRY(int8_t) TRY(uint8_t) TRY(short) TRY(unsigned short) TRY(int) TRY(unsigned) TRY(long) TRY(unsigned long) TRY(long long) TRY(unsigned long long) TRY(float) TRY(double) TRY(long double) TRY(string) TRY(vector<int>) TRY(vector<string>) TRY(vector<bool>) TRY(vector<double>) TRY(vector<long>) TRY(vector<unsigned>) TRY(vector<short>) TRY(vector<unsigned short>) TRY(vector<unsigned long>) TRY(vector<float>) TRY(std::complex<double>) TRY(std::complex<float>) TRY(std::complex<long double>) TRY(std::chrono::seconds) TRY(std::chrono::nanoseconds)
    if (t == typeid(char const *)) return string("PKc:") + std::any_cast<char const *>(a);
    return string("<type ") + t.name() + ">";
  }

  string no_ansi(string const &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\033' && i + 1 < s.size() && s[i + 1] == '[') {
        i += 2;
        while (i < s.size() && !isalpha((unsigned char) s[i])) i++;
        continue;
      }
      o += s[i];
    }
    return o;
  }
  // ---------------------------------------------------------------- C11
  void store_case(int64_t, Rng &r) {
    store st;
    std::map<string, string> m; // written keys -> canon
    std::list<string> keep;     // storage behind char const* values
    static const vector<string> seg{"a", "b", "c", "aa", "app", "cli", "x-y", "1", "A"};
    auto key = [&] {
      string k;
      for (int i = r.range(1, r.chance(10) ? 12 : 4); i > 0; i--) k += (k.empty() ? "" : ".") + r.pick(seg);
      return k;
    };
    string log;
    // a value that any read has handed out must stay what it is
    struct Held {
      string key;
      variable *p;
    };
    vector<Held> held;
    auto put = [&](string const &k, auto const &val, string const &want) {
      string pre, rest = k;
      if (r.chance(40))
        if (auto d = k.find('.'); d != string::npos) {
          vector<size_t> dots;
          for (size_t p = 0; (p = k.find('.', p)) != string::npos; p++) dots.push_back(p);
          d    = r.pick(dots);
          pre  = k.substr(0, d);
          rest = k.substr(d + 1);
        }
      int how = r.range(0, 4);
      log += " set" + std::to_string(how) + "(" + pre + "/" + rest + "=" + want + ")";
      using T = std::decay_t<decltype(val)>;
      bool p  = !pre.empty() || r.chance(20);
      char const *np = pre.empty() && r.chance(50) ? nullptr : pre.c_str();
      switch (how) {
        case 0: p ? st.set_raw_p(np, rest.c_str(), val) : st.set_raw(k.c_str(), val); break;
        case 1: {
          T copy = val;
          p ? st.set_raw_p(np, rest.c_str(), std::move(copy)) : st.set_raw(k.c_str(), std::move(copy));
          break;
        }
        case 2: {
          variable v = mk(val);
          variable const &cv = v;
          p ? st.set_raw_p(np, rest.c_str(), cv) : st.set_raw(k.c_str(), cv);
          VH_CHECK(canon(v) == want, "C11:source-changed", "the variable written changed to " << canon(v) << ";" << log);
          break;
        }
        case 3: {
          p ? st.set_raw_p(np, rest.c_str(), mk(val)) : st.set_raw(k.c_str(), mk(val));
          break;
        }
        default: {
          T copy = val;
          p ? st.set_raw_p(np, rest.c_str(), copy) : st.set_raw(k.c_str(), copy);
          VH_CHECK(canon(mk(copy)) == want, "C11:source-changed", "the value written changed to " << canon(mk(copy)) << ";" << log);
        }
      }
      m[k] = want;
    };
    auto put_random = [&](string const &k) {
      switch (r.range(0, 11)) {
        case 0: { bool v = r.chance(50); put(k, v, cn(v)); break; }
        case 1: { int v = (int) r.u64(); put(k, v, cn(v)); break; }
        case 2: { long v = (long) r.u64(); put(k, v, cn(v)); break; }
        case 3: { double v = (double) r.range(-5000, 5000) / 8; put(k, v, cn(v)); break; }
        case 4: { string v = string((size_t) r.range(0, r.chance(5) ? 3000 : 40), (char) r.range('a', 'z')); put(k, v, cn(v)); break; }
        case 5: {
          keep.push_back(string((size_t) r.range(0, 20), (char) r.range('a', 'z')));
          char const *v = keep.back().c_str();
          put(k, v, "PKc:" + keep.back());
          break;
        }
        case 6: { vector<int> v((size_t) r.range(0, 5), r.range(-9, 9)); put(k, v, cn(v)); break; }
        case 7: { vector<string> v((size_t) r.range(0, 4), "s" + std::to_string(r.range(0, 99))); put(k, v, cn(v)); break; }
        case 8: { std::complex<double> v{(double) r.range(-9, 9), (double) r.range(-9, 9)}; put(k, v, cn(v)); break; }
        case 9: { std::chrono::seconds v{r.range(-99, 9999)}; put(k, v, cn(v)); break; }
        case 10: { unsigned v = (unsigned) r.u64(); put(k, v, cn(v)); break; }
        default: { int8_t v = (int8_t) r.u64(); put(k, v, cn(v)); break; }
      }
    };
    auto expect = [&](string const &k) {
      auto it = m.find(k);
      return it == m.end() ? string("<empty>") : it->second;
    };
    auto split_at = [&](string const &k, string &pre, string &rest) {
      vector<size_t> dots;
      for (size_t p = 0; (p = k.find('.', p)) != string::npos; p++) dots.push_back(p);
      if (dots.empty()) {
        pre = "", rest = k;
        return;
      }
      size_t d = r.pick(dots);
      pre = k.substr(0, d), rest = k.substr(d + 1);
    };
    auto read = [&](string const &k, string const &ctx) {
      store const &c = st;
      string want    = expect(k), pre, rest;
      split_at(k, pre, rest);
      VH_CHECK(canon(st.get_raw(k)) == want, "C11:read", k << " reads " << canon(st.get_raw(k)) << " want " << want << ";" << ctx);
      VH_CHECK(canon(c.get_raw(k.c_str())) == want, "C11:read-const", k << " reads " << canon(c.get_raw(k.c_str())) << " want " << want << ";" << ctx);
      VH_CHECK(canon(st.get_raw_p(pre, rest)) == want && canon(c.get_raw_p(pre, rest)) == want, "C11:read-prefix", pre << "/" << rest << " want " << want << ";" << ctx);
      VH_CHECK(canon(st.get_raw_p(pre.c_str(), rest.c_str())) == want && canon(c.get_raw_p(pre.c_str(), rest.c_str())) == want, "C11:read-prefix", pre << "/" << rest << " want " << want << ";" << ctx);
      VH_CHECK(st.has(nullptr, k.c_str()) == (m.count(k) > 0), "C11:has", "has(" << k << ") is " << st.has(nullptr, k.c_str()) << ";" << ctx);
      VH_CHECK(st.has(pre.c_str(), rest.c_str()) == (m.count(k) > 0), "C11:has-prefix", "has(" << pre << "," << rest << ") is " << st.has(pre.c_str(), rest.c_str()) << ";" << ctx);
    };
    // a value read as a type it does not have is refused, with the value left as it was
    auto wrong_type = [&](string const &k, string const &ctx) {
      variable &v        = st.get_raw(k);
      variable const &cv = v;
      string was         = canon(v);
      auto one = [&](auto tag) {
        using T    = decltype(tag);
        bool right = v.has_value() && v.type() == typeid(T);
        int how    = r.range(0, 3);
        char const *what[] = {"as", "as const", "cast_as", "cast_as const"};
        try {
          T got = how == 0 ? v.as<T>() : how == 1 ? cv.as<T>()
                                   : how == 2     ? v.cast_as<T>()
                                                  : cv.cast_as<T>();
          VH_CHECK(right, "C11:wrong-type", k << " holds " << was << " but " << what[how] << " gave " << cn(got) << ";" << ctx);
          if (right) VH_CHECK(cn(got) == was, "C11:typed-read", k << " holds " << was << ", " << what[how] << " gave " << cn(got) << ";" << ctx);
        } catch (std::exception const &e) {
          VH_CHECK(!right, "C11:typed-read-throws", k << " holds " << was << ", " << what[how] << " throws " << e.what() << ";" << ctx);
          if (!right) vh::count("wrong_type_reads_refused");
        }
      };
      switch (r.range(0, 6)) {
        case 0: one(int{}); break;
        case 1: one(string{}); break;
        case 2: one(bool{}); break;
        case 3: one(double{}); break;
        case 4: one(vector<int>{}); break;
        case 5: one(vector<string>{}); break;
        default: one(std::chrono::seconds{}); break;
      }
      VH_CHECK(canon(st.get_raw(k)) == was, "C11:typed-read-changes", k << " held " << was << " and reads " << canon(st.get_raw(k)) << " after a typed read;" << ctx);
    };
    auto walk = [&](string const &ctx) {
      vector<std::pair<string, string>> got, want(m.begin(), m.end());
      st.walk_by_full_keys([&](std::pair<string, store::node_pointer> const &v) { got.emplace_back(v.first, canon(*v.second)); });
      VH_CHECK(got == want, "C11:walk", "walk visits " << got.size() << " of " << want.size() << " keys, or not sorted, or with other values;" << ctx);
      // the printed listing visits the same keys in the same order
      std::ostringstream os;
      st.dump_full_keys(os, "T");
      vector<string> keys;
      std::stringstream ss(os.str());
      string line;
      while (std::getline(ss, line))
        if (line.rfind(" - ", 0) == 0) keys.push_back(line.substr(3, line.find(" : ") - 3));
      vector<string> wk;
      for (auto &x: m) wk.push_back(x.first);
      VH_CHECK(keys == wk, "C11:dump", "listing shows " << vh::showv(keys) << " want " << vh::showv(wk) << ";" << ctx);
    };
    // every printed form shows each key once, with its value
    auto dumps = [&](string const &ctx) {
      std::map<string, string> txt; // path -> printed value, also of the nodes in between
      auto printed = [](variable const &v) {
        std::ostringstream os;
        os << v;
        return os.str();
      };
      bool odd = false;
      for (auto &x: m) {
        string t = printed(st.get_raw(x.first));
        for (char ch: t) odd |= ch == '\n' || ch == '\033' || ch == 0;
        txt[x.first] = t;
        for (size_t p = x.first.find('.'); p != string::npos; p = x.first.find('.', p + 1))
          if (!m.count(x.first.substr(0, p))) txt[x.first.substr(0, p)] = printed(variable{});
      }
      if (odd) return;
      vh::count("dumps");
      auto pred = [](string const &k) { return k.find("a.b") == string::npos && k.back() != '1'; };
      string list = "T\n", flist = "F\n";
      for (auto &x: m) {
        list += " - " + x.first + " : " + txt[x.first] + "\n";
        if (pred(x.first)) flist += " - " + x.first + " : " + txt[x.first] + "\n";
      }
      std::ostringstream o1, o2, o3, o4, o5;
      st.dump_full_keys(o1, "T");
      VH_CHECK(no_ansi(o1.str()) == list, "C11:dump-values", "the listing is " << vh::show(no_ansi(o1.str())) << " want " << vh::show(list) << ";" << ctx);
      st.dump_full_keys_f(o2, [&](std::pair<string, store::node_pointer> const &v) { return pred(v.first); }, "F");
      VH_CHECK(no_ansi(o2.str()) == flist, "C11:dump-filter", "the filtered listing is " << vh::show(no_ansi(o2.str())) << " want " << vh::show(flist) << ";" << ctx);
      auto tree = [&](string const &text, std::map<string, string> const &want, bool types, char const *what) {
        std::map<string, string> got;
        std::stringstream ss(no_ansi(text));
        string line;
        std::getline(ss, line);
        vector<string> path;
        bool twice = false, deep = false;
        while (std::getline(ss, line)) {
          size_t ind = line.find_first_not_of(' ');
          if (ind == string::npos) continue;
          size_t co = line.find(": ", ind), lv = ind / 2;
          deep |= ind % 2 || lv > path.size() || co == string::npos;
          if (deep) break;
          path.resize(lv);
          path.push_back(line.substr(ind, co - ind));
          string key, v = line.substr(co + 2);
          for (auto &x: path) key += (key.empty() ? "" : ".") + x;
          if (types) {
            size_t b = v.rfind(" (");
            if (b != string::npos) v = v.substr(0, b);
          }
          twice |= got.count(key) > 0;
          got[key] = v;
        }
        VH_CHECK(!deep && !twice && got == want, "C11:dump-tree", what << " is " << vh::show(no_ansi(text)) << " for " << want.size() << " nodes;" << ctx);
      };
      st.dump_tree(o3, "Tr");
      tree(o3.str(), txt, false, "the tree");
      o4 << st;
      tree(o4.str(), txt, false, "the streamed store");
      std::map<string, string> kept; // a rejected node hides what is below it
      for (auto &x: txt) {
        bool all = pred(x.first);
        for (size_t p = x.first.find('.'); p != string::npos; p = x.first.find('.', p + 1)) all = all && pred(x.first.substr(0, p));
        if (all) kept.insert(x);
      }
      bool tn = r.chance(70), old = st.get_dump_with_type_name();
      st.set_dump_with_type_name(tn);
      if (r.chance(50)) st.dump_tree_f(o5, [&](std::pair<string, store::node_pointer> const &v) { return pred(v.first); });
      else st.dump_tree_f(o5), kept = txt;
      st.set_dump_with_type_name(old);
      tree(o5.str(), kept, tn, "the filtered tree");
    };
    auto subtree = [&](string const &p, string const &ctx) {
      auto n = st.subtree(p.c_str());
      std::map<string, string> want;
      bool exists = m.count(p) > 0;
      for (auto &x: m)
        if (x.first.size() > p.size() && x.first.compare(0, p.size(), p) == 0 && x.first[p.size()] == '.') want[x.first.substr(p.size() + 1)] = x.second, exists = true;
      bool found = n && !n->is_null();
      VH_CHECK(found == exists, "C11:subtree-found", "sub-tree '" << p << "' found=" << found << " want " << exists << ";" << ctx);
      // the documented way to test for a missing sub-tree
      VH_CHECK(n != nullptr, "C11:subtree-null", "sub-tree '" << p << "' is a null pointer, so is_null() on it is undefined;" << ctx);
      if (!found || !exists) return;
      std::map<string, string> got;
      vector<string> order;
      st.walk_by_full_keys([&](std::pair<string, store::node_pointer> const &v) { got[v.first] = canon(*v.second), order.push_back(v.first); }, n.get());
      VH_CHECK(got == want && order.size() == want.size() && std::is_sorted(order.begin(), order.end()), "C11:subtree", "sub-tree '" << p << "' has keys " << vh::showv(order) << " want " << want.size() << ";" << ctx);
      for (auto &x: want) {
        VH_CHECK(canon(n->get_raw(x.first)) == x.second, "C11:subtree-read", "sub-tree '" << p << "' key " << x.first << " reads " << canon(n->get_raw(x.first)) << ";" << ctx);
        VH_CHECK(n->has(nullptr, x.first.c_str()), "C11:subtree-has", p << " " << x.first << ";" << ctx);
      }
      VH_CHECK(canon(*n) == expect(p), "C11:subtree-value", p << ";" << ctx);
    };
    int ops = r.range(5, 120), resets = 0;
    for (int i = 0; i < ops; i++) {
      int k = r.range(0, 99);
      if (k < 55) {
        string x;
        if (!m.empty() && r.chance(35)) {
          auto it = m.begin();
          std::advance(it, (long) r.below(m.size()));
          x = it->first;
          if (r.chance(30)) x += "." + r.pick(seg);
          else if (r.chance(20) && x.find('.') != string::npos)
            x = x.substr(0, x.rfind('.'));
        } else
          x = key();
        put_random(x);
        if (r.chance(20)) held.push_back({x, &st.get_raw(x)});
        read(x, log);
        if (r.chance(25)) wrong_type(x, log);
      } else if (k < 80) {
        string x = key();
        read(x, log);
        if (r.chance(25)) wrong_type(x, log);
      }
      else if (k < 90) {
        string p = key();
        if (!m.empty() && r.chance(60)) {
          auto it = m.begin();
          std::advance(it, (long) r.below(m.size()));
          p = it->first.substr(0, it->first.find('.', (size_t) r.range(0, 6)));
        }
        if (r.chance(3)) p = "";
        if (p.empty()) {
          (void) st.subtree(""); // must come back
          continue;
        }
        subtree(p, log);
      } else if (k < 98)
        walk(log);
      else {
        st.reset();
        m.clear();
        held.clear();
        resets++;
        log += " reset";
        walk(log);
      }
      if (log.size() > 6000) log = " ..." + log.substr(4000);
    }
    for (auto &x: m) read(x.first, log);
    for (int i = 0; i < 20; i++) read(key(), log);
    for (auto &h: held) VH_CHECK(canon(*h.p) == expect(h.key), "C11:reference", "an earlier reference to " << h.key << " reads " << canon(*h.p) << " want " << expect(h.key) << ";" << log);
    walk(log);
    dumps(log);
    vh::count("keys_written", (int64_t) m.size());
    vh::count("resets", resets);
    vh::seen(log);
    vh::sample(log);
  }
  // the same through the application's accessors
  void app_store_case(int64_t, Rng &r) {
    auto &app = cmdr::cli("tst", "1.0", "a", "c");
    (void) app.store();
    std::map<string, string> m;
    cmdr::get_store().walk_by_full_keys([&](std::pair<string, store::node_pointer> const &v) { m[v.first] = canon(*v.second); });
    static const vector<string> seg{"a", "b", "cli", "x-y", "help", "1"};
    string log;
    auto key = [&] {
      string k;
      for (int i = r.range(1, 3); i > 0; i--) k += (k.empty() ? "" : ".") + r.pick(seg);
      return k;
    };
    for (int i = r.range(5, 60); i > 0; i--) {
      string k = key();
      if (r.chance(50)) {
        switch (r.range(0, 4)) {
          case 0: { int v = (int) r.u64(); r.chance(50) ? app.set(k.c_str(), v) : cmdr::set(k.c_str(), v); m["app." + k] = cn(v); break; }
          case 1: { string v = "t" + std::to_string(r.range(0, 999)); r.chance(50) ? app.set(k.c_str(), v) : cmdr::set(k.c_str(), v); m["app." + k] = cn(v); break; }
          case 2: { double v = r.range(0, 99) / 4.0; variable x{v}; r.chance(50) ? app.set(k.c_str(), std::move(x)) : cmdr::set(k.c_str(), std::move(x)); m["app." + k] = cn(v); break; }
          case 3: { bool v = r.chance(50); variable const x{v}; r.chance(50) ? app.set(k.c_str(), x) : cmdr::set(k.c_str(), x); m["app." + k] = cn(v); break; }
          default: { vector<int> v((size_t) r.range(0, 4), r.range(0, 9)); app.set(k.c_str(), v); m["app." + k] = cn(v); }
        }
        log += " set(" + k + "=" + m["app." + k] + ")";
      }
      auto ex = [&](string const &f) { return m.count(f) ? m[f] : string("<empty>"); };
      k = key();
      VH_CHECK(canon(app.get(k)) == ex("app." + k) && canon(app.get(k.c_str())) == ex("app." + k), "C11:app-get", "get(" << k << ") reads " << canon(app.get(k)) << " want " << ex("app." + k) << ";" << log);
      VH_CHECK(canon(app.get_for_cli(k)) == ex("app.cli." + k) && canon(app.get_for_cli(k.c_str())) == ex("app.cli." + k), "C11:app-get-cli", "get_for_cli(" << k << ") reads " << canon(app.get_for_cli(k)) << " want " << ex("app.cli." + k) << ";" << log);
      VH_CHECK(canon(cmdr::get_store().get_raw("app." + k)) == ex("app." + k), "C11:app-raw", k << ";" << log);
      VH_CHECK(cmdr::has(k.c_str()) == (m.count("app." + k) > 0), "C11:app-has", "has(" << k << ") is " << cmdr::has(k.c_str()) << ";" << log);
      if (m.count("app." + k) && ex("app." + k)[0] == 'i') {
        VH_CHECK(cn(cmdr::get<int>(k)) == ex("app." + k), "C11:app-typed", k << ";" << log);
      }
    }
    vh::seen(log);
  }

  // ---------------------------------------------------------------- C12
  void conc_case(int64_t, Rng &r) {
    store st;
    int nt = r.range(2, 6), per = r.range(5, 60);
    bool deep = r.chance(50);
    struct Pub {
      std::atomic<int> upto{0};
    };
    vector<Pub> pub((size_t) nt);
    std::atomic<int> start{0}, writers_left{nt};
    std::atomic<long> reads{0}, found{0}, early{0};
    static const vector<string> seg{"a", "b", "c", "d"};
    // keys of writer w: unique, sharing inner nodes with the other writers
    vector<vector<string>> keys((size_t) nt);
    for (int w = 0; w < nt; w++)
      for (int i = 0; i < per; i++) {
        string k;
        for (int d = r.range(0, deep ? 4 : 1); d > 0; d--) k += r.pick(seg) + ".";
        keys[(size_t) w].push_back(k + "w" + std::to_string(w) + "-" + std::to_string(i));
      }
    vector<uint64_t> seeds;
    for (int i = 0; i < 2 * nt + 1; i++) seeds.push_back(r.u64());
    std::atomic<int> bad{0};
    string badmsg;
    std::mutex badm;
    auto fail = [&](string const &k, string const &s) {
      std::lock_guard<std::mutex> l(badm);
      bad++;
      badmsg = k + " " + s;
      vh::violation(k, s);
    };
    auto value = [](int w, int i) { return w * 1000 + i; };
    auto check = [&](Rng &q) {
      int w = (int) q.below((uint64_t) nt), i = (int) q.below((uint64_t) per);
      string const &k = keys[(size_t) w][(size_t) i];
      bool must       = pub[(size_t) w].upto.load(std::memory_order_relaxed) > i;
      reads++;
      switch (q.range(0, 4)) {
        case 0: {
          bool h = st.has(nullptr, k.c_str());
          if (must && !h) fail("C12:lost", "has(" + k + ") is false after its insert returned");
          if (h) found++;
          break;
        }
        case 1:
        case 2: {
          auto const &v = q.chance(50) ? st.get_raw(k) : const_cast<store const &>(st).get_raw(k);
          if (!v.has_value()) {
            if (must) fail("C12:lost", k + " reads empty after its insert returned");
            early++;
          } else {
            found++;
            if (i % 2 == 0) {
              if (v.type() != typeid(int) || std::any_cast<int>(v.underlying_value()) != value(w, i)) fail("C12:torn", k + " reads " + canon(v));
            } else if (v.type() != typeid(string) || std::any_cast<string const &>(v.underlying_value()) != string(40, 'v') + std::to_string(value(w, i)))
              fail("C12:torn", k + " reads " + canon(v));
          }
          break;
        }
        default: {
          auto d = k.rfind('.');
          if (d == string::npos) break;
          auto n = st.subtree(k.substr(0, d).c_str());
          bool ok = n && !n->is_null();
          if (!ok) {
            if (must) fail("C12:subtree-lost", "no sub-tree " + k.substr(0, d));
            break;
          }
          auto const &v = n->get_raw(k.substr(d + 1));
          if (must && !v.has_value()) fail("C12:subtree-lost", "sub-tree misses " + k);
          if (v.has_value()) found++;
        }
      }
    };
    vector<std::thread> th;
    for (int w = 0; w < nt; w++)
      th.emplace_back([&, w] {
        Rng q(seeds[(size_t) w]);
        start++;
        while (start.load() < 2 * nt) std::this_thread::yield();
        for (int i = 0; i < per; i++) {
          string const &k = keys[(size_t) w][(size_t) i];
          if (i % 2 == 0) st.set_raw(k.c_str(), value(w, i));
          else if (i % 4 == 1)
            st.set_raw(k.c_str(), string(40, 'v') + std::to_string(value(w, i)));
          else if (auto d = k.rfind('.'); d != string::npos)
            st.set_raw_p(k.substr(0, d).c_str(), k.c_str() + d + 1, string(40, 'v') + std::to_string(value(w, i)));
          else
            st.set_raw_p(nullptr, k.c_str(), string(40, 'v') + std::to_string(value(w, i)));
          // relaxed: the store itself, not this counter, has to order the insert and the look-up
          pub[(size_t) w].upto.store(i + 1, std::memory_order_relaxed);
          if (q.chance(10)) std::this_thread::yield();
          if (q.chance(30)) check(q);
        }
        writers_left--;
      });
    for (int w = 0; w < nt; w++)
      th.emplace_back([&, w] {
        Rng q(seeds[(size_t) (nt + w)]);
        start++;
        while (start.load() < 2 * nt) std::this_thread::yield();
        // readers pause now and then: the lock lets a closed group of readers keep the writers out
        for (int n = 0; writers_left.load() > 0 && n < 20000; n++) {
          check(q);
          if (n % 8 == 7) usleep((useconds_t) q.range(0, 30));
        }
        for (int i = 0; i < 50; i++) check(q);
      });
    for (auto &t: th) t.join();
    std::map<string, int> all;
    st.walk_by_full_keys([&](std::pair<string, store::node_pointer> const &v) { all[v.first]++; });
    size_t n = 0;
    for (auto &v: keys)
      for (auto &k: v) {
        n++;
        VH_CHECK(all.count(k) == 1, "C12:lost", k << " is missing after all threads ended");
      }
    VH_CHECK(all.size() == n, "C12:extra", all.size() << " keys, want " << n);
    vh::count("inserts", (int64_t) n);
    vh::count("concurrent_reads", reads);
    vh::count("reads_that_found_the_key", found);
    vh::count("reads_before_the_insert", early);
    vh::count("checks", reads);
    vh::seen(seeds[0]);
    vh::sample(VH_MSG(nt << " writers of " << per << " keys with " << nt << " readers, " << reads << " reads, " << found << " hits, " << early << " before the insert"));
  }

  // ---------------------------------------------------------------- C13
  template<class T>
  string parse_to(T const &init, string const &text, string *rest = nullptr) {
    variable v = mk(init);
    std::istringstream is(text);
    is >> v;
    if (rest) {
      is.clear();
      std::getline(is, *rest, '\0');
    }
    return canon(v);
  }
  template<class T>
  void both_ways(Rng &r, T const &val, string const &text) {
    string want = cn(val);
    T init{};
    string got = parse_to(init, text);
    string tn  = cmdr::debug::demangle(typeid(T).name());
    VH_CHECK(got == want, "C13:parse:" + tn, vh::show(text) << " parses to " << got << " want " << want);
    // over another value of the type
    VH_CHECK(parse_to(val, text) == want, "C13:parse:" + tn, vh::show(text) << " over a former value parses to " << parse_to(val, text) << " want " << want);
    vh::count("parses");
    vh::seen(tn + text);
    // print, and parse what was printed
    variable v = mk(val);
    string printed = v.as_string();
    VH_CHECK(parse_to(init, printed) == want, "C13:roundtrip:" + tn, want << " prints as " << vh::show(printed) << " which parses to " << parse_to(init, printed));
    std::ostringstream os;
    auto fl = r.chance(30) ? std::ios_base::fmtflags(std::ios_base::dec | std::ios_base::skipws | (std::ios_base::boolalpha)) : os.flags();
    os.flags(fl);
    auto pr = os.precision();
    char fi = os.fill();
    os << v;
    if constexpr (!std::is_same_v<T, vector<bool>>) VH_CHECK(os.str() == printed, "C13:print:" + tn, vh::show(os.str()) << " vs " << vh::show(printed));
    // a printed or parsed value does not change how the stream treats the next one
    VH_CHECK(os.flags() == fl && os.precision() == pr && os.fill() == fi && os.width() == 0 && os.good(), "C13:stream-state",
             "printing " << want << " as " << tn << " changes the stream's flags from " << fl << " to " << os.flags() << " precision " << pr << "->" << os.precision() << " width " << os.width());
    std::istringstream is(text);
    fl          = is.flags();
    variable v2 = mk(init);
    is >> v2;
    VH_CHECK(is.flags() == fl && is.precision() == 6, "C13:stream-state", "parsing " << vh::show(text) << " as " << tn << " changes the stream's flags from " << fl << " to " << is.flags());
    if (r.chance(1)) vh::sample(vh::show(text) + " <-> " + want + " printed " + vh::show(printed));
  }
  string dec(__int128 v) {
    bool n = v < 0;
    string s;
    unsigned __int128 u = n ? (unsigned __int128) 0 - (unsigned __int128) v : (unsigned __int128) v;
    do s = (char) ('0' + (int) (u % 10)) + s, u /= 10;
    while (u);
    return (n ? "-" : "") + s;
  }
  template<class T>
  T rnd_int(Rng &r) {
    using L = std::numeric_limits<T>;
    switch (r.range(0, 5)) {
      case 0: return L::max();
      case 1: return L::min();
      case 2: return (T) r.range(0, 9);
      case 3: return (T) (L::max() - (T) r.range(0, 9));
      case 4: return (T) (r.u64() >> r.range(0, 63));
      default: return (T) r.u64();
    }
  }
  template<class T>
  void int_case(Rng &r) {
    T v    = rnd_int<T>(r);
    string t = dec((__int128) v);
    if (r.chance(20) && t[0] != '-') t = "+" + t;
    if (r.chance(20)) t = string((size_t) r.range(1, 3), ' ') + t;
    if (r.chance(20)) t.insert(t.find_first_of("0123456789"), string((size_t) r.range(1, 4), '0'));
    both_ways(r, v, t);
    // consumes exactly the number
    static const vector<string> tails{" tail", ",1", "\n2", ";", "]"};
    string rest, tail = r.pick(tails);
    VH_CHECK(parse_to(T{}, t + tail, &rest) == cn(v) && rest == tail, "C13:beyond", vh::show(t + tail) << " leaves " << vh::show(rest));
  }
  // a floating value whose default print (6 significant digits) is exact
  template<class T>
  T rnd_float(Rng &r, string &t) {
    int m = r.range(-99999, 99999), e = r.range(-12, 12);
    std::ostringstream os;
    switch (r.range(0, 3)) {
      case 0: os << m; break;
      case 1: os << m << "e" << e; break;
      case 2: os << m / 100 << "." << (std::abs(m) % 100 < 10 ? "0" : "") << std::abs(m) % 100; break;
      default: os << (m < 0 ? "-" : "") << "." << std::abs(m); break;
    }
    t = os.str();
    if constexpr (std::is_same_v<T, float>) return std::strtof(t.c_str(), nullptr);
    else if constexpr (std::is_same_v<T, double>)
      return std::strtod(t.c_str(), nullptr);
    else
      return std::strtold(t.c_str(), nullptr);
  }
  template<class T>
  void float_case(Rng &r) {
    string t;
    T v = rnd_float<T>(r, t);
    both_ways(r, v, t);
    // any precision parses exactly
    std::ostringstream os;
    os.precision(r.range(1, 25));
    os << (T) ((long double) (int64_t) r.u64() / (long double) (1 + r.below(1000000)));
    t = os.str();
    T w;
    if constexpr (std::is_same_v<T, float>) w = std::strtof(t.c_str(), nullptr);
    else if constexpr (std::is_same_v<T, double>)
      w = std::strtod(t.c_str(), nullptr);
    else
      w = std::strtold(t.c_str(), nullptr);
    VH_CHECK(parse_to(T{}, t) == cn(w), "C13:parse:float", t << " parses to " << parse_to(T{}, t) << " want " << cn(w));
  }
  template<class T>
  void complex_case(Rng &r) {
    string a, b;
    T re = rnd_float<T>(r, a), im = rnd_float<T>(r, b);
    if (r.chance(15)) re = 0, a = "0";
    if (r.chance(15)) im = 0, b = "0";
    string t;
    int form = r.range(0, 3);
    if (form == 0) t = a, im = 0;
    else if (form == 1)
      t = b + "i", re = 0;
    else
      t = a + (b[0] == '-' ? "" : "+") + b + "i";
    if (re == 0) re = 0; // no negative zero
    if (im == 0) im = 0;
    both_ways(r, std::complex<T>(re + T(0), im + T(0)), t);
  }
  template<class T, class G>
  void vec_case(Rng &r, G gen) {
    vector<T> v;
    string t;
    int n = r.chance(10) ? 0 : r.range(1, r.chance(10) ? 60 : 6);
    for (int i = 0; i < n; i++) {
      string e;
      T x = gen(e);
      if (i) t += r.chance(15) ? ", " : ",";
      t += e;
      v.push_back(x);
    }
    if (n == 0 || r.chance(50)) t = "[" + t + "]";
    both_ways(r, v, t);
  }
  template<class T>
  void vint(Rng &r) {
    vec_case<T>(r, [&](string &e) {
      T x = rnd_int<T>(r);
      e   = dec((__int128) x);
      return x;
    });
  }
  template<class T>
  void vflt(Rng &r) {
    vec_case<T>(r, [&](string &e) { return rnd_float<T>(r, e); });
  }
  string rnd_word(Rng &r, bool blanks, bool comma) {
    static const string abc = "abcXYZ0189_-./:+=~@%^*#!?()<>|&;$";
    string s;
    for (int n = r.range(1, r.chance(10) ? 300 : 12); n > 0; n--) {
      int k = r.range(0, 19);
      if (k == 0 && blanks) s += ' ';
      else if (k == 1 && comma)
        s += ',';
      else if (k == 2)
        s += "\xc3\xa9";
      else
        s += abc[r.below(abc.size())];
    }
    return s;
  }
  void text_case(int64_t, Rng &r) {
    for (int it = 0; it < 6; it++) {
      switch (r.range(0, 21)) {
        case 0: {
          bool v = r.chance(50);
          static const vector<string> yes{"1", "t", "true", "y", "yes", "on"}, no{"0", "f", "false", "n", "no", "off"};
          string t = v ? r.pick(yes) : r.pick(no);
          int c    = r.range(0, 3);
          for (size_t i = 0; i < t.size(); i++)
            if (c == 1 || (c == 2 && i == 0) || (c == 3 && r.chance(50))) t[i] = (char) toupper((unsigned char) t[i]);
          both_ways(r, v, t);
          static const vector<string> tails{" tail", ",x", "\n", "-", ";a", "]"};
          string rest, tail = r.pick(tails);
          VH_CHECK(parse_to(!v, t + tail, &rest) == cn(v) && rest == tail, "C13:beyond", vh::show(t + tail) << " leaves " << vh::show(rest));
          break;
        }
        case 1: int_case<short>(r); break;
        case 2: int_case<unsigned short>(r); break;
        case 3: int_case<int>(r); break;
        case 4: int_case<unsigned>(r); break;
        case 5: int_case<long>(r); break;
        case 6: int_case<unsigned long>(r); break;
        case 7: int_case<long long>(r); break;
        case 8: int_case<unsigned long long>(r); break;
        case 9: float_case<float>(r); break;
        case 10: float_case<double>(r); break;
        case 11: float_case<long double>(r); break;
        case 12: complex_case<double>(r); break;
        case 13: r.chance(50) ? complex_case<float>(r) : complex_case<long double>(r); break;
        case 14: {
          string v = rnd_word(r, true, true);
          both_ways(r, v, r.chance(50) ? v : r.chance(50) ? "\"" + v + "\""
                                                          : "'" + v + "'");
          break;
        }
        case 15: {
          string w = rnd_word(r, true, true);
          variable v{w.c_str()};
          string p = v.as_string();
          VH_CHECK(p == "\"" + w + "\"", "C13:print:cstr", vh::show(p) << " for " << vh::show(w));
          string got = parse_to((char const *) "", p);
          VH_CHECK(got.substr(got.find(':') + 1) == w, "C13:roundtrip:cstr", vh::show(p) << " parses to " << got);
          break;
        }
        case 16:
          switch (r.range(0, 4)) {
            case 0: vint<int>(r); break;
            case 1: vint<long>(r); break;
            case 2: vint<unsigned>(r); break;
            case 3: vint<short>(r); break;
            default: vint<unsigned long>(r); break;
          }
          break;
        case 17: vflt<double>(r); break;
        case 18: vflt<float>(r); break;
        case 19:
          vec_case<string>(r, [&](string &e) {
            e = rnd_word(r, false, false);
            if (r.chance(20)) e += " " + rnd_word(r, false, false);
            return e;
          });
          break;
        case 20: {
          // an array of booleans takes the spellings a single one takes
          vector<bool> v;
          string t;
          for (int n = r.range(1, 6); n > 0; n--) {
            bool b = r.chance(50);
            static const vector<string> yes{"1", "true", "yes", "on", "True", "Y"}, no{"0", "false", "no", "off", "False", "N"};
            t += (t.empty() ? "" : ",") + (b ? r.pick(yes) : r.pick(no));
            v.push_back(b);
          }
          both_ways(r, v, r.chance(50) ? t : "[" + t + "]");
          break;
        }
        default: {
          // a variable without value stays without, whatever the text
          static const vector<string> ts{"{}", "{", "{x}", "{}{}", "", "abc", "{ {} }", "{}rest", "}"};
          string t = r.pick(ts), rest;
          variable v;
          std::istringstream is(t);
          is >> v;
          VH_CHECK(!v.has_value(), "C13:void", vh::show(t) << " gives a value");
          std::ostringstream os;
          os << v;
          VH_CHECK(os.str() == "{}", "C13:void-print", os.str());
          if (t == "{}rest" || t == "{}{}") {
            is.clear();
            std::getline(is, rest, '\0');
            VH_CHECK(rest == t.substr(2), "C13:beyond", vh::show(t) << " leaves " << vh::show(rest));
          }
          // assignment takes copies and keeps the source
          string s0 = rnd_word(r, true, true), s1 = s0;
          variable a{1}, b{2};
          a = s0;
          VH_CHECK(s0 == s1 && canon(a) == cn(s1), "C13:assign", "assigning " << vh::show(s1) << " leaves the source " << vh::show(s0) << " and reads " << canon(a));
          a = b;
          VH_CHECK(canon(a) == cn(2) && canon(b) == cn(2), "C13:assign-variable", "a=" << canon(a) << " b=" << canon(b));
          variable const d{3.5};
          a = d;
          VH_CHECK(canon(a) == cn(3.5), "C13:assign-variable", "a=" << canon(a));
          a = variable{s0};
          VH_CHECK(canon(a) == cn(s1), "C13:assign-variable", "a=" << canon(a));
          variable c;
          b.clone_to(c);
          VH_CHECK(canon(c) == cn(2), "C13:clone", canon(c));
          c.reset();
          VH_CHECK(c.empty(), "C13:reset", canon(c));
        }
      }
    }
    // arbitrary text for any type: terminates, keeps the type
    string t;
    for (int n = r.range(0, 24); n > 0; n--) {
      static const string abc = "{}[](),+-i.eE0123456789 \"'xtfyn\n\t";
      t += r.chance(90) ? abc[r.below(abc.size())] : (char) r.range(1, 255);
    }
    auto keeps = [&](auto init) {
      variable v = mk(init);
      std::istringstream is(t);
      is >> v;
      bool ok = v.type() == typeid(init) || (v.type() == typeid(string) && typeid(init) == typeid(char const *));
      VH_CHECK(ok, "C13:type", vh::show(t) << " turns " << cmdr::debug::demangle(typeid(init).name()) << " into " << v.type().name());
      (void) v.as_string();
    };
    switch (r.range(0, 11)) {
      case 0: keeps(true); break;
      case 1: keeps(1); break;
      case 2: keeps(1.5); break;
      case 3: keeps(string("x")); break;
      case 4: keeps((char const *) "x"); break;
      case 5: keeps(vector<int>{1}); break;
      case 6: keeps(vector<string>{"a"}); break;
      case 7: keeps(std::complex<double>{1, 2}); break;
      case 8: keeps(vector<bool>{true}); break;
      case 9: keeps((unsigned char) 'c'); break;
      case 10: keeps(vector<double>{1}); break;
      default: keeps((unsigned long) 1);
    }
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  ro.batch = 20;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) {
    auto const &m = vh::opt().mode;
    if (m == "C11") store_case(c, r);
    else if (m == "C11app") app_store_case(c, r);
    else if (m == "C12") conc_case(c, r);
    else if (m == "C13") text_case(c, r);
  });
}
