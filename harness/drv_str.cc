// C21 string helpers, C22 similarity, C28 environment expansion: each against an independent reference.
#include "common.hpp"
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdint>
#include <functional>
#include <iomanip>
#include <locale>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <cmdr11/cmdr_string.hh>

using std::string;
using std::vector;
using vh::Rng;
using vh::show;
using vh::showv;
namespace cs = cmdr::string;

namespace {
  string rnd(Rng &r, string const &alpha, int max) {
    string s;
    int n = r.chance(8) ? 0 : r.chance(6) ? (int) r.below(max * 8 + 1) : (int) r.below(max + 1);
    for (int i = 0; i < n; i++) s += alpha[r.below(alpha.size())];
    return s;
  }
  string bytes(bool nul) {
    string s;
    for (int c = nul ? 0 : 1; c < 256; c++) s += (char) c;
    return s;
  }
  string text(Rng &r, int max = 24, bool nul = false) {
    switch (r.below(5)) {
      case 0: return rnd(r, "ab,", max);
      case 1: return rnd(r, "aA zZ09_-.,\t\n\r'\"$", max);
      case 2: return rnd(r, " \t\n\v\f\rx", max);
      case 3: return rnd(r, "abc\xc3\xa9\xe4\xb8\xad", max);
      default: return rnd(r, bytes(nul), max);
    }
  }
  bool ref_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
  // fields between the occurrences of d, from left to right
  vector<string> fields(string const &s, string const &d) {
    vector<string> v(1);
    for (size_t i = 0; i < s.size();)
      if (s.compare(i, d.size(), d) == 0) v.emplace_back(), i += d.size();
      else v.back() += s[i++];
    return v;
  }
  string glue(vector<string> const &v, string const &d, string const &b, string const &a) {
    string s = b;
    for (size_t i = 0; i < v.size(); i++) s += (i ? d : "") + v[i];
    return s + a;
  }
  vector<string> ref_lines(string const &s) { // cut at \r?\n, an empty last piece is dropped unless it is the only one
    vector<string> v(1);
    for (size_t i = 0; i < s.size();) {
      size_t n = s[i] == '\n' ? 1 : s.compare(i, 2, "\r\n") == 0 ? 2 : 0;
      if (n) v.emplace_back(), i += n;
      else v.back() += s[i++];
    }
    if (v.size() > 1 && v.back().empty()) v.pop_back();
    return v;
  }
  string esc_re(string const &s) {
    string o;
    for (char c: s) {
      if (strchr("\\^$.|?*+()[]{}/", c)) o += '\\';
      o += c;
    }
    return o;
  }

#define EQ(name, got, want, in)                                                                                            \
  do {                                                                                                                     \
    auto const g_ = (got);                                                                                                 \
    decltype(g_) w_ = (want);                                                                                              \
    vh::count(name);                                                                                                       \
    VH_CHECK(g_ == w_, string("string-") + name, name << " of " << in << " gave " << sh(g_) << ", its contract says " << sh(w_)); \
  } while (0)
  string sh(string const &s) { return show(s); }
  string sh(bool b) { return b ? "true" : "false"; }
  string sh(vector<string> const &v) { return showv(v); }

  void str_case(int64_t, Rng &r) {
    string s = text(r), sig = s;
    // splitting
    {
      string t = text(r, 40, true);
      vector<string> w;
      string cur;
      for (char c: t)
        if (ref_space(c)) {
          if (!cur.empty()) w.push_back(cur);
          cur.clear();
        } else cur += c;
      if (!cur.empty()) w.push_back(cur);
      EQ("tokenize", cs::tokenize(t), w, show(t));
      char d = ",ab \n|"[r.below(6)];
      vector<string> f = fields(t, string(1, d)), ne;
      for (auto &x: f)
        if (!x.empty()) ne.push_back(x);
      EQ("tokenize-char", cs::tokenize(t, d), ne, show(t) << " by " << show(string(1, d)));
      vector<string> g = f;
      if (g.back().empty()) g.pop_back();
      EQ("split-char", cs::split(t, d), g, show(t) << " by " << show(string(1, d)));
      string ds = r.chance(10) ? "" : r.chance(50) ? rnd(r, "ab,", 3) : text(r, 3, true);
      vector<string> out;
      cs::split(t, ds, std::back_inserter(out));
      EQ("split", out, ds.empty() ? vector<string>{t} : fields(t, ds), show(t) << " by " << show(ds));
      EQ("split-join", cs::join(out, string(ds).c_str()), ds.find('\0') == string::npos ? t : cs::join(out, string(ds).c_str()), show(t) << " by " << show(ds));
      if (t.size() < 400) EQ("reg_split", cs::reg_split(t), ref_lines(t), show(t));
      sig += t + ds;
    }
    // joining
    {
      vector<string> v;
      for (int n = (int) r.below(6); n > 0; n--) v.push_back(text(r, 6));
      vector<char const *> pv;
      for (auto &x: v) pv.push_back(x.c_str());
      string d = r.chance(30) ? ";" : text(r, 3), b = text(r, 3), a = text(r, 3);
      char dc = ",;x"[r.below(3)], bc = "\0[<"[r.below(3)], ac = "\0]>"[r.below(3)];
      string bs(bc ? 1 : 0, bc), as(ac ? 1 : 0, ac);
      EQ("join", cs::join(v, d.c_str(), b.c_str(), a.c_str()), glue(v, d, b, a), showv(v) << " with " << show(d));
      EQ("join", cs::join(v, d.c_str(), (char const *) nullptr, (char const *) nullptr), glue(v, d, "", ""), showv(v) << " with " << show(d));
      EQ("join-ptr", cs::join(pv, d.c_str(), b.c_str(), a.c_str()), glue(v, d, b, a), showv(v) << " with " << show(d));
      EQ("join-char", cs::join(v, dc, bc, ac), glue(v, string(1, dc), bs, as), showv(v) << " with " << dc);
      EQ("join-ptr-char", cs::join(pv, dc, bc, ac), glue(v, string(1, dc), bs, as), showv(v) << " with " << dc);
    }
    // replacing
    {
      string t = text(r, 30, true), from = r.chance(60) && !t.empty() ? t.substr(r.below(t.size()), 1 + r.below(3)) : text(r, 3, true), to = r.chance(40) ? from + text(r, 2) : text(r, 4, true);
      if (from.empty()) from = "a";
      string one = t, all = glue(fields(t, from), to, "", "");
      size_t p = t.find(from);
      if (p != string::npos) one = t.substr(0, p) + to + t.substr(p + from.size());
      string x = t;
      bool did = cs::replace(x, from, to);
      EQ("replace", did, p != string::npos, show(t));
      EQ("replace", x, one, show(t) << " from " << show(from) << " to " << show(to));
      x = t;
      cs::replace_all(x, from, to);
      EQ("replace_all", x, all, show(t) << " from " << show(from) << " to " << show(to));
      x = t;
      cs::replace_all(x, "", to);
      EQ("replace_all", x, t, show(t) << " from nothing");
      if (t.size() < 300 && from.find_first_of(string("\0\n\r", 3)) == string::npos) {
        string t2 = to;
        t2.erase(std::remove(t2.begin(), t2.end(), '$'), t2.end());
        EQ("reg_replace", cs::reg_replace(t, esc_re(from), t2), glue(fields(t, from), t2, "", ""), show(t) << " of " << show(from) << " by " << show(t2));
      }
      sig += t + from + to;
    }
    // padding, case
    {
      string t = text(r, 20);
      size_t n = r.chance(10) ? 0 : r.below(12);
      char c = r.chance(60) ? ' ' : (char) r.range(33, 126);
      auto ln = ref_lines(t);
      string w;
      if (ln.size() <= 1) w = string(n, c) + t;
      else
        for (auto &l: ln) w += string(n, c) + l + "\n";
      if (t.size() < 300) EQ("pad_left", cs::pad_left(t, n, c), w, show(t) << " by " << n << " " << show(string(1, c)));
      string x = t, up = t, lo = t;
      size_t m = r.below(40);
      cs::pad(x, m, c);
      EQ("pad", x, t.size() < m ? t + string(m - t.size(), c) : t, show(t) << " to " << m);
      for (auto &ch: up)
        if (ch >= 'a' && ch <= 'z') ch = (char) (ch - 'a' + 'A');
      for (auto &ch: lo)
        if (ch >= 'A' && ch <= 'Z') ch = (char) (ch - 'A' + 'a');
      x = t, cs::to_upper(x);
      EQ("to_upper", x, up, show(t));
      x = t, cs::to_lower(x);
      EQ("to_lower", x, lo, show(t));
      x = t, cs::to_upper_t(x);
      EQ("to_upper_t", x, up, show(t));
      x = t, cs::to_lower_t(x);
      EQ("to_lower_t", x, lo, show(t));
#if __clang__
      x = t, cs::to_upper_trans(x);
      EQ("to_upper_trans", x, up, show(t));
#endif
      EQ("to_capitalize", cs::to_capitalize(t), up, show(t));
      sig += t;
    }
    // prefixes, wrapping, stripping, trimming
    {
      string t = text(r, 16), p = r.chance(50) ? t.substr(0, r.below(t.size() + 1)) : text(r, 3), q = r.chance(50) ? t.substr(r.below(t.size() + 1)) : text(r, 3);
      bool hp = t.size() >= p.size() && std::equal(p.begin(), p.end(), t.begin());
      bool hq = t.size() >= q.size() && std::equal(q.rbegin(), q.rend(), t.rbegin());
      EQ("has_prefix", cs::has_prefix(t, p), hp, show(t) << " " << show(p));
      EQ("has_prefix", cs::has_prefix(t, p.c_str()), hp, show(t) << " " << show(p));
      EQ("has_suffix", cs::has_suffix(t, q), hq, show(t) << " " << show(q));
      EQ("has_suffix", cs::has_suffix(t, q.c_str()), hq, show(t) << " " << show(q));
      auto st = cs::strip(t, p.c_str(), q.c_str());
      size_t cut = (hp ? p.size() : 0) + (hq ? q.size() : 0);
      if (cut <= t.size()) EQ("strip", st, t.substr(hp ? p.size() : 0, t.size() - cut), show(t) << " of " << show(p) << " and " << show(q));
      EQ("wrap", cs::wrap(t, p, q), p + t + q, show(t));
      EQ("wrap", cs::wrap(t, p.c_str(), q.c_str()), p + t + q, show(t));
      EQ("wrap", cs::wrap(t, '<', '>'), "<" + t + ">", show(t));
      EQ("quoted", cs::quoted(t), "\"" + t + "\"", show(t));
      string z = r.chance(50) ? t : rnd(r, "'\"a", 8);
      size_t a = 0, b = z.size();
      while (a < b && (z[a] == '\'' || z[a] == '"')) a++;
      while (b > a && (z[b - 1] == '\'' || z[b - 1] == '"')) b--;
      EQ("strip_quotes", cs::strip_quotes(z), z.substr(a, b - a), show(z));
      {
        std::istringstream is(z);
        string got;
        cs::strip_quotes(is, got);
        string want = z;
        if (!z.empty() && (z[0] == '\'' || z[0] == '"')) want = z.substr(1, z.find(z[0], 1) == string::npos ? string::npos : z.find(z[0], 1) - 1);
        EQ("strip_quotes-stream", got, want, show(z));
      }
      a = 0, b = t.size();
      while (a < b && ref_space(t[a])) a++;
      while (b > a && ref_space(t[b - 1])) b--;
      string L = t.substr(std::min(a, t.size())), R = t;
      while (!R.empty() && ref_space(R.back())) R.pop_back();
      string x = t;
      EQ("trim_left_space", cs::trim_left_space(x), L, show(t));
      EQ("trim_left_space", x, L, show(t) << " in place");
      x = t;
      EQ("trim_right_space", cs::trim_right_space(x), R, show(t));
      EQ("trim_right_space", x, R, show(t) << " in place");
      EQ("trim_left_space", cs::trim_left_space(string(t)), L, show(t));
      EQ("trim_right_space", cs::trim_right_space(string(t)), R, show(t));
      EQ("trim_left", cs::trim_left(t), L, show(t));
      EQ("trim_right", cs::trim_right(t), R, show(t));
      EQ("trim", cs::trim(t), t.substr(a, b - a), show(t));
      sig += t + p + q + z;
    }
    // reading up to a delimiter
    {
      string t = text(r, 40, true), d = r.chance(60) ? rnd(r, "ab,", 3) : text(r, 3);
      if (d.empty()) d = ",";
      vector<string> want = fields(t, d), got;
      if (want.back().empty()) want.pop_back(); // nothing is left to read after the last delimiter
      std::istringstream is(t);
      string one;
      while (cs::read_until(is, one, d.c_str())) {
        got.push_back(one);
        if (got.size() > want.size() + 3) break;
      }
      EQ("read_until", got, want, show(t) << " up to " << show(d));
      std::istringstream is3(t);
      EQ("read_until-text", cs::read_until(is3, d.c_str()), fields(t, d)[0], show(t) << " up to " << show(d));
      string rest{std::istreambuf_iterator<char>(is3), std::istreambuf_iterator<char>()};
      size_t dp = t.find(d);
      EQ("read_until-rest", rest, dp == string::npos ? "" : t.substr(dp + d.size()), show(t) << " up to " << show(d));
      std::istringstream is2(t);
      EQ("read_until-char", cs::read_until(is2, d[0]), fields(t, d.substr(0, 1))[0], show(t) << " up to " << show(d.substr(0, 1)));
    }
    // integers
    for (int k = 0; k < 12; k++) {
      int bits = (int) r.below(33);
      uint32_t u = (uint32_t) r.u64();
      if (bits < 32) u &= (1u << bits) - 1;
      if (r.chance(20)) { // around powers of ten and the limits
        static uint64_t const edge[] = {0, 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, INT_MAX, (uint64_t) INT_MAX + 1, UINT_MAX};
        u = (uint32_t) (edge[r.below(14)] + r.below(3) - 1);
      }
      int i = r.chance(50) ? (int) u : (int) (0u - u);
      string x = r.chance(50) ? "leftover text" : "";
      EQ("itoa", cs::conv::itoa(i, x), std::to_string(i), i);
      EQ("itoa", x, std::to_string(i), i << " in place");
      EQ("itoa-unsigned", cs::conv::itoa(u, x), std::to_string(u), u);
      EQ("to_string", cmdr::to_string(i), std::to_string(i), i);
      auto up = std::make_unique<unsigned>(u);
      auto sp = std::make_shared<int>(i);
      EQ("to_string", cmdr::to_string(up), std::to_string(u), u << " by unique_ptr");
      EQ("to_string", cmdr::to_string(sp), std::to_string(i), i << " by shared_ptr");
      sig += (char) u;
    }
    EQ("to_string", cmdr::to_string(s), s, show(s));
    vh::seen(sig);
    vh::sample(show(s));
  }

  // ---------------------------------------------------------------- C22
  double ref_jaro(string const &a, string const &b) {
    if (a.empty() || b.empty()) return 0;
    if (a == b) return 1;
    int n = (int) a.size(), m = (int) b.size(), w = std::max(n, m) / 2 - 1;
    vector<char> ub(m);
    string ma, mb;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++)
        if (!ub[j] && a[i] == b[j] && std::abs(i - j) <= w) {
          ub[j] = 1;
          ma += a[i];
          break;
        }
    for (int j = 0; j < m; j++)
      if (ub[j]) mb += b[j];
    double c = (double) ma.size(), t = 0;
    if (ma.empty()) return 0;
    for (size_t i = 0; i < ma.size(); i++) t += ma[i] != mb[i];
    t /= 2;
    return (c / n + c / m + (c - t) / c) / 3;
  }
  void jaro_case(int64_t, Rng &r) {
    string sig;
    double thr = r.chance(30) ? 0.83 : r.below(1001) / 1000.0;
    bool cased = !r.chance(30);
    cmdr::text::jaro_winkler_distance obj{thr, cased};
    for (int k = 0; k < 8; k++) {
      string a, b;
      switch (r.below(4)) {
        case 0: a = rnd(r, "ab", 8), b = rnd(r, "ab", 8); break;
        case 1: a = text(r), b = text(r); break;
        default:
          a = rnd(r, "abcdefghij-ABCDE", 12), b = a;
          for (int e = (int) r.below(4); e > 0 && !b.empty(); e--) {
            size_t p = r.below(b.size());
            switch (r.below(5)) {
              case 0: b.erase(p, 1); break;
              case 1: b.insert(p, 1, "abcxyzA"[r.below(7)]); break;
              case 2: b[p] = "abcxyzA"[r.below(7)]; break;
              case 3: std::swap(b[p], b[r.below(b.size())]); break;
              default: b[p] = (char) (b[p] ^ (isalpha((unsigned char) b[p]) ? 32 : 0));
            }
          }
      }
      string ra = a, rb = b;
      if (!cased)
        for (auto *x: {&ra, &rb})
          for (auto &c: *x)
            if (c >= 'A' && c <= 'Z') c = (char) (c + 32);
      double want = ref_jaro(ra, rb), got;
      if (r.chance(50)) got = obj(a.c_str(), b.c_str());
      else got = (double) obj.calculate(a.c_str(), b.c_str());
      vh::count("pairs");
      if (want > 0 && want < 1) vh::count("partial_matches");
      VH_CHECK(std::fabs(got - want) < 1e-9, "jaro-value", "similarity of " << show(a) << " and " << show(b) << (cased ? "" : " (case-insensitive)") << " is " << got << ", by definition " << want);
      VH_CHECK(std::fabs((double) obj - want) < 1e-9 && obj.equal(want) && obj == want && !(obj == want + 0.001) && !obj.equal(want - 0.001), "jaro-kept", "after computing the similarity of " << show(a) << " and " << show(b) << " the object holds " << (double) obj << " instead of " << want);
      VH_CHECK(got >= 0 && got <= 1 + 1e-12, "jaro-range", "similarity of " << show(a) << " and " << show(b) << " is " << got);
      if (std::fabs(want - thr) > 1e-6)
        VH_CHECK(obj.matched() == (want >= thr), "jaro-matched", "similarity of " << show(a) << " and " << show(b) << " is " << want << ", threshold " << thr << ", matched() is " << obj.matched());
      if (!ra.empty() && !rb.empty())
        VH_CHECK((got > 1 - 1e-12) == (ra == rb), "jaro-one", "similarity of " << show(a) << " and " << show(b) << " is " << got);
      sig += a + "/" + b + "|";
    }
    vh::seen(sig);
    vh::sample(sig);
  }

  // ---------------------------------------------------------------- C28
  bool nm(char c) { return isalnum((unsigned char) c) && (unsigned char) c < 128 ? true : c == '_'; }
  string ref_expand(string const &t, std::map<string, string> const &env) {
    string o;
    auto val = [&](string const &n) {
      auto it = env.find(n);
      return it == env.end() ? string() : it->second;
    };
    for (size_t i = 0; i < t.size();) {
      if (t[i] == '$') {
        size_t j = i + 1;
        if (j < t.size() && t[j] == '{') {
          size_t k = j + 1;
          while (k < t.size() && nm(t[k])) k++;
          if (k > j + 1 && k < t.size() && t[k] == '}') {
            o += val(t.substr(j + 1, k - j - 1));
            i = k + 1;
            continue;
          }
        } else {
          size_t k = j;
          while (k < t.size() && nm(t[k])) k++;
          if (k > j) {
            o += val(t.substr(j, k - j));
            i = k;
            continue;
          }
        }
      }
      o += t[i++];
    }
    return o;
  }
  void env_case(int64_t, Rng &r) {
    std::map<string, string> env;
    vector<string> names;
    static char const *pool[] = {"A", "AB", "ABC", "a", "_x", "X1", "HOME", "LONG_NAME_9", "B_", "V0"};
    for (auto *n: pool) unsetenv(n);
    auto piece = [&]() -> string {
      string n = pool[r.below(10)];
      switch (r.below(12)) {
        case 0: case 1: return "$" + n;
        case 2: case 3: return "${" + n + "}";
        case 4: return "${" + n;
        case 5: return "$" + n + "}";
        case 6: return "$";
        case 7: return r.chance(50) ? "${}" : "${";
        case 8: return r.chance(50) ? "}" : "{";
        case 9: return "$" + n + "_undefined";
        case 10: return r.chance(20) ? "$" + string(r.below(3000), 'N') : "${" + n + " }";
        default: return text(r, 6);
      }
    };
    auto mk = [&](int n) {
      string s;
      for (int i = (int) r.below(n + 1); i > 0; i--) s += piece();
      s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
      return s;
    };
    for (auto *n: pool)
      if (r.chance(60)) {
        string v = r.chance(40) ? mk(2) : text(r, 8);
        if (r.chance(15)) v = string(r.chance(50) ? "$" : "${") + n + "}"; // refers to itself
        env[n] = v;
        setenv(n, v.c_str(), 1);
      }
    string t = mk(8), want = ref_expand(t, env), got = cs::expand_env(t);
    vh::count("texts");
    if (want != t) vh::count("expanded");
    if (want.find('$') != string::npos) vh::count("dollar_left");
    VH_CHECK(got == want, "expand", "expanding " << show(t) << " gave " << show(got) << " instead of " << show(want));
    vh::seen(t + "|" + want);
    vh::sample(show(t));
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  ro.batch = 100;
  string m;
  for (int i = 1; i + 1 < argc; i++)
    if (string(argv[i]) == "--mode") m = argv[i + 1];
  return vh::drive(argc, argv, ro, [&](int64_t c, Rng &r) {
    if (m == "C22") jaro_case(c, r);
    else if (m == "C28") env_case(c, r);
    else str_case(c, r);
  });
}
