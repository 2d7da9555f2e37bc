// C26 durations and time points as text, C27 calendar helpers: against independent civil-calendar arithmetic.
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <cstdint>
#include <ctime>
#include <iomanip>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <cmdr11/cmdr_chrono.hh>

using std::string;
using std::vector;
using vh::Rng;
namespace ch = cmdr::chrono;
using SC     = std::chrono::system_clock;
using TP     = SC::time_point;
using iom    = ch::iom;
using FL     = iom::fmtflags;

namespace {
  string show(string const &s) { return vh::show(s); }
  typedef long long ll;
  ll civil_days(ll y, int m, int d) { // days since 1970-01-01, proleptic Gregorian
    y -= m <= 2;
    ll era = (y >= 0 ? y : y - 399) / 400;
    ll yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    return era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468;
  }
  struct Ymd {
    ll y;
    int m, d;
    bool operator==(Ymd const &o) const { return y == o.y && m == o.m && d == o.d; }
  };
  Ymd civil(ll z) {
    z += 719468;
    ll era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
    ll yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400;
    ll doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int d = (int) (doy - (153 * mp + 2) / 5 + 1), m = (int) (mp < 10 ? mp + 3 : mp - 9);
    return {y + (m <= 2), m, d};
  }
  string p2(ll v, int w = 2) {
    std::ostringstream os;
    os << std::setw(w) << std::setfill('0') << v;
    return os.str();
  }
  string show(Ymd const &x) { return p2(x.y, 4) + "-" + p2(x.m) + "-" + p2(x.d); }
  string show(std::tm const &t) { return p2(t.tm_year + 1900, 4) + "-" + p2(t.tm_mon + 1) + "-" + p2(t.tm_mday) + " " + p2(t.tm_hour) + ":" + p2(t.tm_min) + ":" + p2(t.tm_sec); }
  char const *const zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "IST-5:30", "BRT3BRST,M10.3.0/0,M2.3.0/0", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0/0:01,M11.1.0/0:01"};
  char const *tz(Rng &r) {
    char const *z = zones[r.below(8)];
    setenv("TZ", z, 1);
    tzset();
    return z;
  }
  ll fdiv(ll a, ll b) { return a / b - (a % b < 0); }
  TP tp_ns(ll ns) { return TP(std::chrono::duration_cast<SC::duration>(std::chrono::nanoseconds(ns))); }
  std::tm local(ll s) {
    time_t t = (time_t) s;
    std::tm tm{};
    localtime_r(&t, &tm);
    return tm;
  }
  // a second of 1902..2200, often near a change of day, of year or of the zero second
  ll rnd_sec(Rng &r) {
    switch (r.below(6)) {
      case 0: return (ll) r.below(20) - 10;
      case 1: return civil_days(r.range(1902, 2199), r.range(1, 12), 1) * 86400 + (ll) r.below(7) - 3;
      case 2: return civil_days(r.range(1970, 2100), r.chance(50) ? 3 : 10, r.range(20, 31)) * 86400 + (ll) r.below(86400);
      default: return (ll) (r.u64() % (uint64_t) (9400000000ll)) - 2145000000ll;
    }
  }
  bool same_tm(std::tm const &a, std::tm const &b) { return a.tm_year == b.tm_year && a.tm_mon == b.tm_mon && a.tm_mday == b.tm_mday && a.tm_hour == b.tm_hour && a.tm_min == b.tm_min && a.tm_sec == b.tm_sec; }

  // ---------------------------------------------------------------- C26
  // reads what a person would: amounts with units, the last one with decimal groups of three digits. -1: not understood
  bool read_duration(string const &t, ll &ns) {
    ns       = 0;
    size_t i = 0;
    ll last  = INT64_MAX;
    while (i < t.size()) {
      if (t[i] == ':') {
        if (i == 0 || i + 1 == t.size()) return false;
        i++;
      }
      size_t b = i;
      while (i < t.size() && isdigit((unsigned char) t[i])) i++;
      if (i == b) return false;
      ll a = std::stoll(t.substr(b, i - b)), frac = 0;
      int digits = 0;
      while (i < t.size() && t[i] == '.') {
        size_t q = ++i;
        while (i < t.size() && isdigit((unsigned char) t[i])) frac = frac * 10 + (t[i++] - '0'), digits++;
        if (i - q != 3) return false;
      }
      ll unit = 0;
      static const std::pair<char const *, ll> U[] = {{"ms", 1000000}, {"us", 1000}, {"ns", 1}, {"y", 365ll * 86400 * 1000000000}, {"d", 86400ll * 1000000000}, {"h", 3600ll * 1000000000}, {"m", 60ll * 1000000000}, {"s", 1000000000}};
      for (auto &u: U)
        if (t.compare(i, strlen(u.first), u.first) == 0) {
          unit = u.second;
          i += strlen(u.first);
          break;
        }
      if (!unit || unit >= last) return false; // units fall from left to right
      last     = unit;
      ll scale = 1;
      for (int k = 0; k < digits; k++) scale *= 10;
      if (frac && unit % scale) return false;
      ns += a * unit + (frac ? frac * (unit / scale) : 0);
    }
    return true;
  }
  struct Zone { // model of the stream settings
    int prec = 2;
    bool gmt = true;
  };
  void check_flags(Zone const &z, string const &ops) {
    static const FL P[] = {FL::clear, FL::ms, FL::us, FL::ns};
    for (int k = 1; k <= 3; k++) VH_CHECK(iom::has(P[k]) == (k == z.prec), "chrono-flags", "after " << ops << " precision " << k << " is " << (iom::has(P[k]) ? "set" : "not set") << ", last chosen was " << z.prec);
    VH_CHECK(iom::has(FL::gmt_or_local) == z.gmt, "chrono-flags", "after " << ops << " the zone mode is " << (iom::has(FL::gmt_or_local) ? "GMT" : "local"));
  }
  void set_random(Rng &r, Zone &z, string &ops) {
    std::ostringstream os;
    for (int n = (int) r.below(4); n >= 0; n--)
      switch (r.below(7)) {
        case 0: os << FL::ms; z.prec = 1, ops += "ms "; break;
        case 1: iom::set_flags(FL::us); z.prec = 2, ops += "us "; break;
        case 2: os << FL::ns; z.prec = 3, ops += "ns "; break;
        case 3: os << FL::gmt; z.gmt = true, ops += "gmt "; break;
        case 4: os << FL::local; z.gmt = false, ops += "local "; break;
        case 5: {
          bool b = r.chance(50);
          iom::set_flags(FL::gmt_or_local, b);
          z.gmt = b, ops += b ? "gmt_or_local " : "!gmt_or_local ";
          break;
        }
        default: os << FL::clear; z = Zone{}, ops += "clear ";
      }
    check_flags(z, ops);
  }
  string want_time(ll ns, Zone const &z, char const *fmt) {
    ll s = fdiv(ns, 1000000000), f = ns - s * 1000000000;
    std::ostringstream os;
    if (z.gmt) {
      ll d = fdiv(s, 86400), t = s - d * 86400;
      auto c = civil(d);
      string a = show(c), b = p2(t / 3600) + ":" + p2(t / 60 % 60) + ":" + p2(t % 60);
      for (char const *p = fmt; *p; p++)
        if (*p != '%') os << *p;
        else switch (*++p) {
            case 'F': os << a; break;
            case 'T': os << b; break;
            case 'Y': os << p2(c.y, 4); break;
            case 'm': os << p2(c.m); break;
            case 'd': os << p2(c.d); break;
            case 'H': os << p2(t / 3600); break;
            case 'M': os << p2(t / 60 % 60); break;
            case 'S': os << p2(t % 60); break;
          }
    } else {
      auto tm = local(s);
      char buf[200];
      strftime(buf, sizeof buf, fmt, &tm);
      os << buf;
    }
    if (z.prec == 3) os << ',' << p2(f, 9);
    else if (z.prec == 2) os << '.' << p2(f / 1000, 6);
    else os << '.' << p2(f / 1000000, 3);
    return os.str();
  }
  template<class D>
  void duration_as(ll ns, char const *nm) {
    D d           = std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns));
    ll want       = (ll) std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), got = 0;
    string t      = ch::format_duration(d);
    std::ostringstream os;
    os << std::setfill('*') << std::hex;
    os << std::dec << d;
    VH_CHECK(read_duration(t, got) && got == want, "duration-text", want << "ns as " << nm << " prints " << show(t) << ", which reads as " << got << "ns");
    VH_CHECK(os.str() == t, "duration-stream", "streamed " << show(os.str()) << " formatted " << show(t));
    VH_CHECK(os.fill() == '*', "duration-fill", "printing " << show(t) << " left the stream's fill character " << show(string(1, os.fill())));
  }
  void text_case(int64_t, Rng &r) {
    string sig, zn = tz(r);
    iom::reset();
    // durations: any subset of the units may be zero
    for (int k = 0; k < 6; k++) {
      static const ll unit[] = {365ll * 86400 * 1000000000, 86400ll * 1000000000, 3600ll * 1000000000, 60ll * 1000000000, 1000000000, 1000000, 1000, 1};
      static const int top[] = {280, 365, 24, 60, 60, 1000, 1000, 1000};
      ll ns = 0;
      int keep = (int) r.below(256);
      for (int u = 0; u < 8; u++)
        if (keep >> u & 1) ns += unit[u] * (r.chance(30) ? (ll) r.below(12) % top[u] : (ll) r.below((uint64_t) top[u]));
      duration_as<std::chrono::nanoseconds>(ns, "nanoseconds");
      duration_as<std::chrono::microseconds>(ns, "microseconds");
      duration_as<std::chrono::milliseconds>(ns, "milliseconds");
      duration_as<std::chrono::seconds>(ns, "seconds");
      duration_as<std::chrono::duration<int, std::ratio<60>>>(ns, "minutes");
      duration_as<std::chrono::duration<ll, std::ratio<1, 3>>>(ns / 4 / unit[7], "thirds of a second");
      auto b = ch::detail::break_down_durations<std::chrono::hours, std::chrono::seconds, std::chrono::milliseconds, std::chrono::nanoseconds>(std::chrono::nanoseconds(ns));
      ll sum = std::get<0>(b).count() * unit[2] + std::get<1>(b).count() * unit[4] + std::get<2>(b).count() * unit[5] + std::get<3>(b).count();
      VH_CHECK(sum == ns && std::get<1>(b).count() < 3600 && std::get<2>(b).count() < 1000 && std::get<3>(b).count() < 1000000, "duration-parts", ns << "ns broken down into " << std::get<0>(b).count() << "h " << std::get<1>(b).count() << "s " << std::get<2>(b).count() << "ms " << std::get<3>(b).count() << "ns");
      vh::count("durations", 6);
      sig += std::to_string(ns) + " ";
    }
    // stream settings, nested savers
    Zone z;
    string ops;
    {
      set_random(r, z, ops);
      Zone outer = z;
      {
        iom::saver sv;
        set_random(r, z, ops);
        if (r.chance(50)) {
          Zone mid = z;
          try {
            iom::saver s2;
            set_random(r, z, ops);
            throw 1;
          } catch (int) {}
          check_flags(z = mid, ops + "(inner saver ended) ");
        }
      }
      check_flags(z = outer, ops + "(saver ended) ");
    }
    // time points
    for (int k = 0; k < 6; k++) {
      ll s = rnd_sec(r), ns = s * 1000000000 + (r.chance(20) ? 0 : r.chance(20) ? 999999999 : (ll) r.below(1000000000));
      if (r.chance(50)) set_random(r, z, ops);
      TP tp = tp_ns(ns);
      static char const *const fmts[] = {"%Y-%m-%d %H:%M:%S", "%F %T", "%Y/%m/%d %H:%M:%S", "%H:%M:%S", "%Y-%m-%d"};
      char const *fmt = fmts[r.below(5)];
      string want = want_time(ns, z, fmt), got = ch::format_time_point(tp, fmt), ctx = " (TZ " + zn + ", " + ops + ", " + std::to_string(ns) + "ns since 1970)";
      vh::count(ns < 0 ? "time_points_before_1970" : "time_points");
      vh::count(z.gmt ? "gmt" : "local");
      VH_CHECK(got == want, "time-text", show(got) << " for " << show(want) << ctx);
      std::ostringstream os;
      os << std::setfill('*') << tp;
      VH_CHECK(os.str() == want_time(ns, z, "%F %T"), "time-stream", "streamed " << show(os.str()) << ctx);
      VH_CHECK(os.fill() == '*', "time-fill", "printing a time point left the stream's fill character " << show(string(1, os.fill())));
      Zone lz = z;
      lz.gmt  = false;
      string lt = ch::format_time_point_to_local(tp, fmt);
      VH_CHECK(lt == want_time(ns, lz, fmt), "time-local", show(lt) << " for " << show(want_time(ns, lz, fmt)) << ctx);
      check_flags(z, ops + "format_time_point_to_local ");
      VH_CHECK((ll) ch::time_point_get_ms(tp) == fdiv(ns, 1000000) - fdiv(ns, 1000000000) * 1000 && (ll) ch::time_point_get_us(tp) == fdiv(ns, 1000) - fdiv(ns, 1000000) * 1000 && (ll) ch::time_point_get_ns(tp) == ns - fdiv(ns, 1000) * 1000, "time-parts",
               ch::time_point_get_ms(tp) << "/" << ch::time_point_get_us(tp) << "/" << ch::time_point_get_ns(tp) << ctx);
      // read back what was printed
      ll sec   = fdiv(ns, 1000000000);
      string g = ch::format_time_point(tp, "%Y-%m-%d %H:%M:%S"), sl = ch::format_time_point(tp, "%Y/%m/%d %H:%M:%S");
      auto gm  = ch::parse_datetime<SC, true>(z.gmt ? g.c_str() : want_time(ns, Zone{}, "%Y-%m-%d %H:%M:%S").c_str());
      VH_CHECK(gm == tp_ns(sec * 1000000000), "time-parse-gmt", "reading back a GMT time gives " << (ll) SC::to_time_t(gm) << " instead of " << sec << ctx);
      { // only a date or only a time: the rest is that of now
        ll d = fdiv(sec, 86400), tod = sec - d * 86400;
        for (char const *f1: {"%Y-%m-%d", "%Y/%m/%d"}) {
          std::time_t st = (std::time_t) sec;
          std::tm gt{};
          gmtime_r(&st, &gt);
          char buf[40];
          strftime(buf, sizeof buf, f1, &gt);
          ll n0 = (ll) SC::to_time_t(SC::now()), got1 = (ll) SC::to_time_t(ch::parse_datetime<SC, true>(buf)), n1 = (ll) SC::to_time_t(SC::now());
          ll lo1 = d * 86400 + n0 % 86400, hi1 = d * 86400 + n1 % 86400;
          VH_CHECK(fdiv(got1, 86400) == d && (n0 / 86400 != n1 / 86400 || (got1 >= lo1 && got1 <= hi1)), "date-parse-gmt", buf << " is read as " << got1 << ", not day " << d << " at the time of now");
        }
        ll n0 = (ll) SC::to_time_t(SC::now()), got1 = (ll) SC::to_time_t(ch::parse_datetime<SC, true>((p2(tod / 3600) + ":" + p2(tod / 60 % 60) + ":" + p2(tod % 60)).c_str())), n1 = (ll) SC::to_time_t(SC::now());
        VH_CHECK(got1 == n0 / 86400 * 86400 + tod || got1 == n1 / 86400 * 86400 + tod, "tod-parse-gmt", "time of day " << tod << "s is read as " << got1 << " at " << n0);
      }
      auto tm = local(sec);
      std::tm t2 = tm;
      t2.tm_isdst = -1;
      if (mktime(&t2) == sec) { // the local time is not one of an hour that occurs twice
        for (auto const &txt: {want_time(ns, lz, "%Y-%m-%d %H:%M:%S"), want_time(ns, lz, "%Y/%m/%d %H:%M:%S")}) {
          auto lo = ch::parse_datetime(txt.c_str());
          VH_CHECK(lo == tp_ns(sec * 1000000000), "time-parse-local", "reading " << show(txt) << " gives " << (ll) SC::to_time_t(lo) << " instead of " << sec << ctx);
        }
        vh::count("read_back");
      }
      for (char const *f2: {"%Y-%m-%d %H:%M:%S", "%Y/%m/%d %H:%M:%S", "%d.%m.%Y %H-%M-%S"}) {
        std::tm t3{}, t4{};
        string txt = ch::format_tm(&tm, f2);
        std::ostringstream ts;
        ch::serialize_tm(ts, &tm, f2);
        VH_CHECK(ts.str() == txt, "tm-text", show(ts.str()) << " against " << show(txt));
        VH_CHECK(ch::try_parse(t3, txt, f2) && same_tm(t3, tm), "tm-parse", show(txt) << " by " << f2 << " read back as " << show(t3));
        VH_CHECK(ch::try_parse_by(t4, txt, "%H:%M:%S", f2) && same_tm(t4, tm), "tm-parse-by", show(txt) << " by several formats read back as " << show(t4));
      }
      {
        std::ostringstream ts;
        ts << tm;
        VH_CHECK(ts.str() == show(tm), "tm-text", show(ts.str()) << " against " << show(show(tm)));
        std::tm t5 = tm;
        VH_CHECK(!ch::try_parse_by(t5, "no time", "%H:%M:%S") && same_tm(t5, tm), "tm-parse-by", "a text that is no time was accepted or changed the result");
      }
      sig += std::to_string(ns) + " ";
    }
    if (r.chance(10)) { // the clock and the calls that take the time of now
      iom::reset();
      Zone zz;
      set_random(r, zz, ops);
      auto ns_now = [] { return (ll) std::chrono::duration_cast<std::chrono::nanoseconds>(SC::now().time_since_epoch()).count(); };
      ll a        = ns_now();
      ch::clock c = ch::clock::now();
      ll b        = ns_now();
      std::ostringstream os;
      if (r.chance(50)) c.serialize(os << std::setfill('*'));
      else os << std::setfill('*') << c;
      VH_CHECK(os.fill() == '*', "clock-fill", "printing a clock left the stream's fill character " << show(string(1, os.fill())));
      {
        ll in = (ll) c.in_nsec(), fl = fdiv(a, 1000000000) * 1000000000;
        bool okc = in >= 0 && in < 1000000000 && ((fl + in >= a && fl + in <= b) || (fl + 1000000000 + in >= a && fl + 1000000000 + in <= b));
        VH_CHECK(okc && (ll) c.nsec() == in % 1000, "clock-parts", "the clock's nanoseconds are " << in << " and " << c.nsec() << " between " << a << " and " << b);
        auto tv = ch::get_system_clock_in_us();
        auto ts = ch::get_system_clock_in_ns();
        long np = ch::get_system_clock_ns_part();
        ll e    = ns_now(), u = (ll) tv.tv_sec * 1000000 + tv.tv_usec, n = (ll) ts.tv_sec * 1000000000 + ts.tv_nsec;
        VH_CHECK(u >= b / 1000 - 1 && u <= e / 1000 + 1 && n >= b - 1000 && n <= e + 1000 && np >= 0 && np < 1000000000, "clock-system", "between " << b << " and " << e << " the system clock said " << u << "us " << n << "ns, part " << np);
      }
      ll cut   = zz.prec == 3 ? 1 : zz.prec == 2 ? 1000 : 1000000;
      string t = os.str(), lo = want_time(a / cut * cut, zz, "%Y-%m-%d %H:%M:%S"), hi = want_time(b / cut * cut, zz, "%Y-%m-%d %H:%M:%S");
      for (auto *x: {&lo, &hi, &t})
        for (char &k: *x)
          if (k == ',') k = '.';
      VH_CHECK(lo <= t && t <= hi && t.size() == lo.size(), "clock-text", "the clock printed " << t << " between " << lo << " and " << hi << " (TZ " << zn << ", " << ops << ")");
      Zone lz = zz;
      lz.gmt  = false;
      a       = ns_now();
      string l1 = ch::format_time_point_to_local(), l2 = ch::format_time_point();
      b         = ns_now();
      VH_CHECK(want_time(a, lz, "%Y-%m-%d %H:%M:%S") <= l1 && l1 <= want_time(b, lz, "%Y-%m-%d %H:%M:%S"), "time-local-now", l1 << " (TZ " << zn << ") between " << want_time(a, lz, "%Y-%m-%d %H:%M:%S") << " and " << want_time(b, lz, "%Y-%m-%d %H:%M:%S"));
      VH_CHECK(want_time(a, zz, "%Y-%m-%d %H:%M:%S") <= l2 && l2 <= want_time(b, zz, "%Y-%m-%d %H:%M:%S"), "time-now", l2 << " (TZ " << zn << ", " << ops << ")");
      // a timing scope reports once, at its end, no less than what passed
      int calls = 0;
      ll measured = -1, slept;
      bool print  = r.chance(50);
      vh::Capture cap;
      {
        ch::high_res_duration h([&](auto d) {
          calls++;
          measured = (ll) std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
          return print;
        });
        auto t0 = std::chrono::steady_clock::now();
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        slept = (ll) std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count();
        if (calls) measured = -2;
      }
      std::cout.flush();
      cap.stop();
      ll rd = -1;
      VH_CHECK(calls == 1 && measured >= slept * 9 / 10, "scope-timer", "called " << calls << " times with " << measured << "ns for " << slept << "ns");
      if (print) VH_CHECK(cap.out.compare(0, 8, "It took ") == 0 && cap.out.back() == '\n' && read_duration(cap.out.substr(8, cap.out.size() - 9), rd) && rd == measured, "scope-timer-text", "printed " << show(cap.out) << " for " << measured << "ns");
      else VH_CHECK(cap.out.empty(), "scope-timer-text", "printed " << show(cap.out) << " although the callback returned false");
      vh::count("clock_cases");
    }
    vh::seen(sig);
    vh::sample(sig);
  }

  // ---------------------------------------------------------------- C27
  void calendar_case(int64_t, Rng &r) {
    string sig, zn = tz(r);
    for (int k = 0; k < 10; k++) {
      ll days = r.chance(30) ? civil_days(r.range(1971, 2099), r.range(1, 12), 1) + (ll) r.below(3) - 1 : civil_days(1971, 1, 1) + (ll) r.below(365 * 128);
      Ymd c   = civil(days);
      std::tm tm{};
      tm.tm_year = (int) c.y - 1900, tm.tm_mon = c.m - 1, tm.tm_mday = c.d;
      if (r.chance(40)) tm.tm_hour = (int) r.below(24), tm.tm_min = (int) r.below(60), tm.tm_sec = (int) r.below(60);
      else if (r.chance(50))
        tm.tm_hour = 23, tm.tm_min = 30 + (int) r.below(30);
      tm.tm_isdst = -1;
      std::tm norm = tm;
      time_t at    = mktime(&norm);
      if (!same_tm(norm, tm)) continue; // this local time does not exist (the clock was set forward)
      bool from_clock = r.chance(70);   // as localtime() would give it, with its own DST flag
      std::tm in      = from_clock ? norm : tm;
      string ctx      = " from " + show(tm) + " TZ " + zn;
      auto date_is    = [&](std::tm const &g, ll want_day, char const *key, string const &what) {
        Ymd w = civil(want_day);
        std::tm x = tm; // does the wall time exist on the day wanted?
        x.tm_year = (int) w.y - 1900, x.tm_mon = w.m - 1, x.tm_mday = w.d, x.tm_isdst = -1;
        std::tm y = x;
        mktime(&y);
        if (!same_tm(x, y)) return;
        VH_CHECK((Ymd{g.tm_year + 1900ll, g.tm_mon + 1, g.tm_mday} == w), key, what << " is " << show(g) << " instead of " << show(w) << ctx);
        VH_CHECK(g.tm_wday == ((want_day + 4) % 7 + 7) % 7, "calendar-weekday", what << ": weekday of " << show(g) << " is " << g.tm_wday << ctx);
        VH_CHECK(g.tm_yday == want_day - civil_days(w.y, 1, 1), "calendar-yearday", what << ": day of year of " << show(g) << " is " << g.tm_yday << ctx);
        std::tm z = g;
        VH_CHECK(z.tm_hour == tm.tm_hour && z.tm_min == tm.tm_min && z.tm_sec == tm.tm_sec, "calendar-hour", what << " has time " << show(g) << ctx);
      };
      {
        int ofs = r.chance(50) ? r.range(1, 3) : r.range(1, 31), delta = r.chance(60) ? 1 : r.range(1, 40);
        ll m = c.m - 1 + delta;
        ll w = civil_days(c.y + m / 12, (int) (m % 12) + 1, 1) - ofs;
        date_is(ch::last_day_at_this_month(in, ofs, delta), w, "last-day-month", "day -" + std::to_string(ofs) + " of the month, delta " + std::to_string(delta));
        date_is(ch::time_point_2_tm(ch::last_day_at_this_month_in_time_point(in, ofs, delta)), w, "last-day-month", "day -" + std::to_string(ofs) + " of the month as time point, delta " + std::to_string(delta));
        vh::count("month_ends");
        sig += std::to_string(days) + "/" + std::to_string(ofs) + "/" + std::to_string(delta) + " ";
      }
      {
        int ofs = r.chance(50) ? r.range(1, 40) : r.range(1, 366);
        ll w    = civil_days(c.y + 1, 1, 1) - ofs;
        date_is(ch::last_day_at_this_year(in, ofs), w, "last-day-year", "day -" + std::to_string(ofs) + " of the year");
        date_is(ch::time_point_2_tm(ch::last_day_at_this_year_in_time_point(in, ofs)), w, "last-day-year", "day -" + std::to_string(ofs) + " of the year as time point");
        vh::count("year_ends");
        sig += std::to_string(ofs) + " ";
      }
      if (r.chance(20)) {
        static const int bad[] = {0, -1, 32, 367, 1000, -30};
        int b = bad[r.below(6)];
        if (b != 32) {
          std::tm g = ch::last_day_at_this_year(in, b);
          VH_CHECK(same_tm(g, tm), "last-day-invalid", "offset " << b << " of the year gave " << show(g) << ctx);
        }
        if (b == 32 || b < 1 || b > 31) {
          std::tm g = ch::last_day_at_this_month(in, b, 1);
          VH_CHECK(same_tm(g, tm), "last-day-invalid", "offset " << b << " of the month gave " << show(g) << ctx);
        }
      }
      // date parts
      {
        TP a = SC::from_time_t(at) + std::chrono::nanoseconds(r.below(1000000000));
        ll other = r.chance(40) ? days : r.chance(50) ? days + (ll) r.below(5) - 2 : days + (ll) r.below(2000) - 1000;
        Ymd o    = civil(other);
        std::tm t2{};
        t2.tm_year = (int) o.y - 1900, t2.tm_mon = o.m - 1, t2.tm_mday = o.d, t2.tm_hour = (int) r.below(24), t2.tm_min = (int) r.below(60), t2.tm_isdst = -1;
        std::tm n2 = t2;
        time_t bt  = mktime(&n2);
        if (same_tm(n2, t2)) {
          TP b   = SC::from_time_t(bt);
          int rc = ch::compare_date_part(a, b), want = days < other ? -1 : days > other;
          VH_CHECK((rc != 0) == (want != 0), "compare-date", "dates " << show(c) << " and " << show(o) << " compare " << rc << ctx << " and " << show(t2));
          vh::count(want ? "dates_differ" : "dates_equal");
        }
        // broken-down time and back
        std::tm l  = ch::time_point_2_tm(a), l2 = ch::time_t_2_tm(at);
        VH_CHECK(same_tm(l, tm) && same_tm(l2, tm), "to-tm", show(l) << " and " << show(l2) << ctx);
        std::tm bk = l;
        VH_CHECK(ch::tm_2_time_point(bk) == SC::from_time_t(at), "from-tm", "broken-down time gives " << (ll) SC::to_time_t(ch::tm_2_time_point(bk)) << " instead of " << (ll) at << ctx);
        VH_CHECK(ch::tm_2_time_point(&bk) == SC::from_time_t(at), "from-tm", "by pointer" << ctx);
        ll s = rnd_sec(r);
        TP g = tp_ns(s * 1000000000 + (ll) r.below(1000000000));
        ll d = fdiv(s, 86400), t = s - d * 86400;
        std::tm gm = ch::time_point_2_tm<SC, true>(g), gm2 = ch::time_t_2_tm<SC, true>((time_t) s);
        Ymd gc = civil(d);
        for (auto &x: {gm, gm2}) {
          VH_CHECK((Ymd{x.tm_year + 1900ll, x.tm_mon + 1, x.tm_mday} == gc) && x.tm_hour == t / 3600 && x.tm_min == t / 60 % 60 && x.tm_sec == t % 60, "to-gmt", show(x) << " for second " << s);
          VH_CHECK(x.tm_wday == ((d + 4) % 7 + 7) % 7 && x.tm_yday == d - civil_days(gc.y, 1, 1), "to-gmt", "weekday or day of year of " << show(x));
        }
        TP lp = tp_ns(s * 1000000000 + (ll) r.below(1000000000));
        VH_CHECK(same_tm(ch::time_point_2_tm(lp), local(s)), "to-local", show(ch::time_point_2_tm(lp)) << " for " << show(local(s)) << ", second " << s << " TZ " << zn);
        VH_CHECK(ch::duration_is_zero(TP{}) && !ch::duration_is_zero(TP{} + SC::duration(1)) && ch::duration_is_zero(g) == (g.time_since_epoch().count() == 0), "is-zero", "");
      }
      // dates as text: the date is taken as written
      {
        string d = show(c), sl = d;
        for (char &x: sl)
          if (x == '-') x = '/';
        for (auto const &txt: {d, sl}) {
          std::tm n0 = local((ll) SC::to_time_t(SC::now()));
          auto g     = ch::parse_datetime(txt.c_str());
          std::tm x  = local((ll) SC::to_time_t(g));
          std::tm n1 = local((ll) SC::to_time_t(SC::now())), ex = n0;
          ex.tm_year = (int) c.y - 1900, ex.tm_mon = c.m - 1, ex.tm_mday = c.d, ex.tm_isdst = -1;
          std::tm ey = ex;
          mktime(&ey);
          if (n0.tm_hour == n1.tm_hour && same_tm(ex, ey))
            VH_CHECK((Ymd{x.tm_year + 1900ll, x.tm_mon + 1, x.tm_mday} == c), "parse-date", show(txt) << " read as " << show(x) << " TZ " << zn);
        }
        VH_CHECK(ch::duration_is_zero(ch::parse_datetime("no date at all")), "parse-date", "a text without a date gave a time");
      }
    }
    vh::seen(sig);
    vh::sample(sig + zn);
  }
  // ---- the same conversions from several threads: each gets what a single thread gets
  void conc_case(int64_t, Rng &r) {
    int nt = r.range(2, 6), per = r.range(20, 120);
    // without clock changes: what mktime() makes of an hour that happens twice depends on earlier calls
    setenv("TZ", r.chance(50) ? "IST-5:30" : r.chance(50) ? "UTC0" : "XYZ+7", 1);
    tzset();
    auto civil_tm = [](time_t t) {
      std::tm x{};
      gmtime_r(&t, &x);
      return x;
    };
    struct Job {
      TP t;
      time_t s;
      string text, in;
      std::tm lo, gm;
      TP parsed, gparsed, rounded;
    };
    auto text = [](TP const &t) {
      std::ostringstream os;
      os << t;
      return os.str();
    };
    auto wall = [](std::tm const &x) {
      char b[64];
      snprintf(b, sizeof b, "%04d/%02d/%02d %02d:%02d:%02d", x.tm_year + 1900, x.tm_mon + 1, x.tm_mday, x.tm_hour, x.tm_min, x.tm_sec);
      return string(b);
    };
    auto run = [&](Job &j) {
      j.text    = text(j.t);
      j.lo      = ch::time_point_2_tm(j.t);
      j.gm      = ch::time_t_2_tm<SC, true>(j.s);
      j.parsed  = ch::parse_datetime(j.in.c_str());
      j.gparsed = ch::parse_datetime<SC, true>(j.in.c_str());
      j.rounded = ch::last_day_at_this_month_in_time_point(j.lo, 1, 1);
    };
    vector<vector<Job>> want((size_t) nt), got((size_t) nt);
    for (auto &v: want)
      for (int k = 0; k < per; k++) {
        Job j;
        j.s  = (time_t) (86400 * (ll) r.range(365, 40000) + r.range(0, 86399));
        j.t  = tp_ns((ll) j.s * 1000000000 + (ll) r.below(1000000000));
        j.in = wall(civil_tm(j.s));
        run(j);
        v.push_back(j);
      }
    std::atomic<int> go{0};
    vector<std::thread> ts;
    for (int t = 0; t < nt; t++) {
      got[(size_t) t] = want[(size_t) t];
      ts.emplace_back([&, t] {
        go++;
        while (go < nt) std::this_thread::yield();
        for (auto &j: got[(size_t) t]) run(j);
      });
    }
    for (auto &t: ts) t.join();
    string ctx = " by one of " + std::to_string(nt) + " threads";
    for (int t = 0; t < nt; t++)
      for (int k = 0; k < per; k++) {
        auto &a = want[(size_t) t][(size_t) k];
        auto &b = got[(size_t) t][(size_t) k];
        VH_CHECK(a.text == b.text, "concurrent-text", vh::show(a.text) << " is written as " << vh::show(b.text) << ctx);
        VH_CHECK(same_tm(a.lo, b.lo) && same_tm(a.gm, b.gm), "concurrent-tm", show(a.lo) << ", " << show(a.gm) << " become " << show(b.lo) << ", " << show(b.gm) << ctx);
        VH_CHECK(a.parsed == b.parsed && a.gparsed == b.gparsed, "concurrent-parse", vh::show(a.in) << " is read as another time" << ctx);
        VH_CHECK(a.rounded == b.rounded, "concurrent-month", "the end of the month of " << show(a.lo) << " is another one" << ctx);
        vh::count("concurrent_conversions");
      }
    vh::seen(std::to_string(nt) + "/" + std::to_string(per) + want[0][0].text);
    vh::sample(ctx + " " + want[0][0].text);
  }
} // namespace

int main(int argc, char **argv) {
  vh::RunOpts ro;
  ro.batch = 50;
  string m;
  for (int i = 1; i + 1 < argc; i++)
    if (string(argv[i]) == "--mode") m = argv[i + 1];
  return vh::drive(argc, argv, ro, [&](int64_t c, Rng &r) {
    if (m == "C27") calendar_case(c, r);
    else if (m == "C26conc") conc_case(c, r);
    else text_case(c, r);
  });
}
