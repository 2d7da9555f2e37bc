// C18 observers and signals, C19 priority queue, C30 singleton / factory / defer.
#include "cmdr-config-base.hh"
#include "cmdr-version.hh"

#include "cmdr11/cmdr_defs.hh"
#include "cmdr11/cmdr_priority_queue.hh"
#include "cmdr11/cmdr_common.hh"
#include "cmdr11/cmdr_utils.hh"

#include "common.hpp"
#include "perturb.hpp"
#include <chrono>
#include <deque>
#include <memory>
#include <thread>

using namespace std::chrono_literals;
using vh::Rng;
namespace cu = cmdr::util;

// ------------------------------------------------------------------ C18: observable
struct Ev {
  int id = 0;
  std::string text;
};
struct Rec18 {
  std::vector<std::pair<int, int>> log; // observer, event
};
struct Obs : cu::observer<Ev> {
  int me;
  Rec18 *rec;
  std::function<void(int)> on; // reaction, may add or remove observers
  Obs(int m, Rec18 *r)
      : me(m)
      , rec(r) {}
  void observe(Ev const &e) override {
    if (e.text != "t" + std::to_string(e.id)) vh::violation("C18:content", "event arrived damaged");
    rec->log.emplace_back(me, e.id);
    if (on) on(e.id);
  }
};

template<bool Lock, bool CNS>
static void c18_model(Rng &r, char const *name) {
  using O  = cu::observable<Ev, Lock, CNS>;
  using SP = typename O::observer_t_shared;
  Rec18 rec;
  O subject;
  std::vector<SP> obs;
  std::vector<Obs *> raw;
  std::vector<int> model; // registration order, duplicates allowed
  int n = r.range(1, 6);
  for (int i = 0; i < n; i++) {
    auto o = std::make_shared<Obs>(i, &rec);
    raw.push_back(o.get());
    obs.push_back(o);
  }
  std::ostringstream h;
  h << name << ":";
  int ops = r.range(4, 40), ev = 0;
  for (int k = 0; k < ops; k++) {
    int i = (int) r.below((uint64_t) n);
    switch (r.below(10)) {
      case 0:
      case 1:
      case 2:
        if (!obs[(size_t) i]) break;
        h << " +" << i;
        switch (r.below(4)) {
          case 0: subject += obs[(size_t) i]; break;
          case 1: subject.add_observer(obs[(size_t) i]); break;
          case 2: subject.add_observer(typename O::observer_t(obs[(size_t) i])); break;
          default: (void) (subject + obs[(size_t) i]);
        }
        model.push_back(i);
        break;
      case 3:
      case 4:
        if (!obs[(size_t) i]) break;
        h << " -" << i;
        switch (r.below(4)) {
          case 0: subject -= obs[(size_t) i]; break;
          case 1: subject.remove_observer(obs[(size_t) i]); break;
          case 2: subject.remove_observer(obs[(size_t) i].get()); break;
          default: (void) (subject - obs[(size_t) i]);
        }
        model.erase(std::remove(model.begin(), model.end(), i), model.end());
        break;
      case 5:
        if (!obs[(size_t) i] || !r.chance(40)) break;
        h << " x" << i; // the observer goes away without unregistering
        obs[(size_t) i].reset();
        model.erase(std::remove(model.begin(), model.end(), i), model.end());
        break;
      case 6:
        if (!obs[(size_t) i]) break;
        {
          h << " (" << i;
          cu::registerer<Ev, Lock, CNS> reg(subject, obs[(size_t) i]);
          std::vector<int> m2 = model;
          m2.push_back(i);
          rec.log.clear();
          ++ev;
          subject.emit(Ev{ev, "t" + std::to_string(ev)});
          std::vector<std::pair<int, int>> want;
          for (int m: m2) want.emplace_back(m, ev);
          VH_CHECK(rec.log == want, "C18:registerer", h.str() << ": " << rec.log.size() << " deliveries, wanted " << want.size());
        }
        model.erase(std::remove(model.begin(), model.end(), i), model.end());
        h << ")";
        break;
      default: {
        // maybe let one registered observer change the chain while it is notified
        int who = -1, what = 0, other = 0;
        if (!model.empty() && r.chance(30)) {
          who   = r.pick(model);
          what  = (int) r.below(2);
          other = (int) r.below((uint64_t) n);
          if (!obs[(size_t) other]) what = 0;
          bool done           = false;
          raw[(size_t) who]->on = [&, done](int) mutable {
            if (done) return;
            done = true;
            if (what == 0) subject -= obs[(size_t) who];
            else
              subject += obs[(size_t) other];
          };
          h << (what ? " !add" : " !self");
        }
        rec.log.clear();
        ++ev;
        h << " e";
        subject.emit(Ev{ev, "t" + std::to_string(ev)});
        std::vector<std::pair<int, int>> want;
        for (int m: model) want.emplace_back(m, ev);
        if (who >= 0) {
          raw[(size_t) who]->on = nullptr;
          // during this emission only the others' deliveries are settled
          auto strip = [&](std::vector<std::pair<int, int>> v) {
            v.erase(std::remove_if(v.begin(), v.end(), [&](auto const &p) { return p.first == who || (what && p.first == other); }), v.end());
            return v;
          };
          VH_CHECK(strip(rec.log) == strip(want), "C18:emit-reentrant", h.str() << ": other observers missed the event");
          VH_CHECK(std::count_if(rec.log.begin(), rec.log.end(), [&](auto const &p) { return p.first == who; }) >= 1, "C18:emit-reentrant", h.str() << ": the reacting observer missed the event");
          if (what == 0) model.erase(std::remove(model.begin(), model.end(), who), model.end());
          else
            model.push_back(other);
          vh::count("c18_reentrant");
        } else
          VH_CHECK(rec.log == want, "C18:emit", h.str() << ": " << rec.log.size() << " deliveries, wanted " << want.size());
        vh::count("c18_emits");
      }
    }
  }
  vh::seen(h.str());
  vh::sample(h.str());
}

// concurrent: every thread owns its observers; emitters count
struct CObs : cu::observer<Ev> {
  std::atomic<int64_t> n{0};
  std::atomic<int> last{0};
  std::mutex m;
  std::set<int> ids;
  int dup = 0;
  void observe(Ev const &e) override {
    n.fetch_add(1, std::memory_order_relaxed);
    std::lock_guard<std::mutex> l(m);
    if (!ids.insert(e.id).second) dup++;
  }
  int64_t count() {
    std::lock_guard<std::mutex> l(m);
    return (int64_t) ids.size();
  }
  bool has(int id) {
    std::lock_guard<std::mutex> l(m);
    return ids.count(id) > 0;
  }
};
template<bool CNS>
static void c18_conc(Rng &r, char const *name) {
  using O = cu::observable<Ev, true, CNS>;
  O subject;
  int threads = r.range(2, 5), emitters = r.range(1, 2), rounds = r.range(5, 40), fixed = r.range(0, 3);
  std::ostringstream sh;
  sh << name << " threads=" << threads << " emitters=" << emitters << " rounds=" << rounds << " fixed=" << fixed;
  std::string S = sh.str();
  vh::seen(S + std::to_string(vp::seed().load() % 32));
  std::vector<std::shared_ptr<CObs>> fx;
  std::vector<typename O::observer_t_shared> keep;
  for (int i = 0; i < fixed; i++) {
    auto o = std::make_shared<CObs>();
    fx.push_back(o);
    keep.push_back(o);
    subject += keep.back();
  }
  std::atomic<bool> go{false};
  std::atomic<int> eid{0};
  std::vector<std::thread> ts;
  std::vector<uint64_t> seeds;
  for (int i = 0; i < threads + emitters; i++) seeds.push_back(r.u64());
  std::vector<std::shared_ptr<CObs>> stay((size_t) threads);
  std::vector<typename O::observer_t_shared> stay_sp((size_t) threads);
  for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t] {
      Rng q(seeds[(size_t) t]);
      while (!go) std::this_thread::yield();
      for (int k = 0; k < rounds; k++) {
        auto o                             = std::make_shared<CObs>();
        typename O::observer_t_shared sp = o;
        subject += sp;
        if (q.chance(20)) {
          // an event of this thread's own while registered must arrive, once
          int id = eid.fetch_add(1) + 1;
          subject.emit(Ev{id, ""});
          VH_CHECK(o->has(id), "C18:registered", S << ": a registered observer missed an event emitted after its registration");
        }
        subject -= sp;
        int64_t c = o->count();
        if (q.chance(30)) {
          int id = eid.fetch_add(1) + 1;
          subject.emit(Ev{id, ""});
          VH_CHECK(!o->has(id), "C18:removed", S << ": an observer got an event emitted after its removal");
        }
        if (q.chance(20)) vp::nap((int) q.below(50));
        VH_CHECK(o->count() == c, "C18:removed", S << ": events delivered to an observer after its removal");
        VH_CHECK(o->dup == 0, "C18:duplicate", S << ": event delivered twice");
      }
      stay[(size_t) t]    = std::make_shared<CObs>();
      stay_sp[(size_t) t] = stay[(size_t) t];
      subject += stay_sp[(size_t) t];
    });
  std::atomic<int> emitted{0};
  for (int e = 0; e < emitters; e++)
    ts.emplace_back([&, e] {
      Rng q(seeds[(size_t) (threads + e)]);
      while (!go) std::this_thread::yield();
      for (int k = 0; k < rounds; k++) {
        subject.emit(Ev{eid.fetch_add(1) + 1, ""});
        emitted++;
        if (q.chance(20)) std::this_thread::yield();
      }
    });
  go = true;
  for (auto &t: ts) t.join();
  int total = eid.load(), fin = eid.fetch_add(1) + 1;
  subject.emit(Ev{fin, ""});
  for (auto &o: stay) VH_CHECK(o->has(fin) && o->dup == 0, "C18:lost-registration", S << ": an observer registered by a concurrent thread got lost");
  for (auto &o: fx) VH_CHECK(o->count() == total + 1 && o->dup == 0, "C18:fixed", S << ": an observer registered throughout saw " << o->count() << " of " << total + 1 << " events");
  vh::count("c18_events", total + 1);
}

struct BEvt {
  int id;
  std::string s;
};
static std::vector<std::string> *g_blog;
static void bfree(BEvt const &e) { g_blog->push_back("free" + std::to_string(e.id) + e.s); }
struct BMem {
  std::string tag;
  void cb(BEvt const &e) { g_blog->push_back(tag + std::to_string(e.id) + e.s); }
  void operator()(BEvt const &e) { g_blog->push_back("op" + tag + std::to_string(e.id) + e.s); }
};
static void c18_bindable(Rng &r) {
  cu::observable_bindable<BEvt> sub;
  std::vector<std::string> log;
  g_blog = &log;
  std::vector<std::function<std::string(int, std::string)>> want;
  BMem shared{"sh"};
  int n = r.range(0, 6);
  for (int i = 0; i < n; i++) {
    bool on = r.chance(50);
    switch (r.below(5)) {
      case 0: {
        auto f = [i, &log](BEvt const &e) { log.push_back("l" + std::to_string(i) + std::to_string(e.id) + e.s); };
        on ? sub.on(f) : sub.add_callback(f);
        want.push_back([i](int id, std::string s) { return "l" + std::to_string(i) + std::to_string(id) + s; });
        break;
      }
      case 1:
        on ? sub.on(bfree) : sub.add_callback(bfree);
        want.push_back([](int id, std::string s) { return "free" + std::to_string(id) + s; });
        break;
      case 2: {
        BMem m{"m" + std::to_string(i)};
        on ? sub.on(&BMem::cb, m) : sub.add_callback(&BMem::cb, m);
        want.push_back([i](int id, std::string s) { return "m" + std::to_string(i) + std::to_string(id) + s; });
        break;
      }
      case 3:
        on ? sub.on(&BMem::cb, &shared) : sub.add_callback(&BMem::cb, &shared);
        want.push_back([](int id, std::string s) { return "sh" + std::to_string(id) + s; });
        break;
      default: {
        auto f = [&log](int extra, std::string pre, BEvt const &e) { log.push_back(pre + std::to_string(extra) + std::to_string(e.id) + e.s); };
        std::string pre = "p" + std::to_string(i);
        on ? sub.on(f, i, pre) : sub.add_callback(f, i, std::string(pre));
        want.push_back([i, pre](int id, std::string s) { return pre + std::to_string(i) + std::to_string(id) + s; });
      }
    }
  }
  int evs = r.range(1, 4);
  for (int e = 1; e <= evs; e++) {
    std::string s(r.below(30), 'q');
    log.clear();
    sub.emit(BEvt{e, s});
    std::vector<std::string> w;
    for (auto &f: want) w.push_back(f(e, s));
    VH_CHECK(log == w, "C18:bindable", "callbacks called " << vh::showv(log) << " wanted " << vh::showv(w));
  }
  if (r.chance(50)) {
    // a callback binds further ones while it is called
    int more = r.range(1, 5), got = 0;
    bool done = false;
    std::string own(r.below(60), 'o'), seen;
    sub.on([&, own](BEvt const &) {
      if (done) return;
      done = true;
      for (int i = 0; i < more; i++) sub.on([&got](BEvt const &) { got++; });
      seen = own;
    });
    std::vector<std::string> w;
    for (auto &f: want) w.push_back(f(1, "z"));
    for (int e = 0; e < 2; e++) {
      log.clear();
      got = 0;
      sub.emit(BEvt{1, "z"});
      VH_CHECK(log == w, "C18:bindable-reentrant", "callbacks called " << vh::showv(log) << " wanted " << vh::showv(w));
      VH_CHECK(seen == own && (e == 0 ? got <= more : got == more), "C18:bindable-reentrant", more << " callbacks bound while emitting were called " << got << " times by emission " << e + 1);
    }
    vh::count("c18_reentrant_bindable");
  }
}
struct SMem {
  std::string tag;
  std::vector<std::string> *log;
  void m(int a, std::string s, std::vector<int> const &v) { log->push_back(tag + std::to_string(a) + s + std::to_string(v.size())); }
};
static std::vector<std::string> *g_slog;
static void sfree(int a, std::string s, std::vector<int> v) { g_slog->push_back("f" + std::to_string(a) + s + std::to_string(v.size())); }
static void c18_signal(Rng &r) {
  {
    cu::signal<int, std::string, std::vector<int>> sig;
    std::vector<std::string> log;
    g_slog = &log;
    std::vector<std::string> tags;
    SMem mem{"mem", &log};
    int n = r.range(0, 6);
    for (int i = 0; i < n; i++) {
      bool on = r.chance(50);
      std::string tag = "s" + std::to_string(i) + ".";
      switch (r.below(6)) {
        case 0: {
          auto f = [tag, &log](int a, std::string s, std::vector<int> v) { log.push_back(tag + std::to_string(a) + s + std::to_string(v.size())); };
          on ? sig.on(f) : sig.connect(f);
          break;
        }
        case 1: {
          auto f = [tag, &log](int const &a, std::string const &s, std::vector<int> const &v) { log.push_back(tag + std::to_string(a) + s + std::to_string(v.size())); };
          on ? sig.on(f) : sig.connect(f);
          break;
        }
        case 2: {
          auto f = [tag, &log](auto a, auto &&s, auto v) { log.push_back(tag + std::to_string(a) + s + std::to_string(v.size())); };
          on ? sig.on(f) : sig.connect(f);
          break;
        }
        case 3:
          tag = "f";
          on ? sig.on(sfree) : sig.connect(sfree);
          break;
        case 4:
          tag = "mem";
          on ? sig.on(&SMem::m, mem) : sig.connect(&SMem::m, &mem);
          break;
        default: {
          using namespace std::placeholders;
          auto f = [tag, &log](std::string s, int a, std::vector<int> v) { log.push_back(tag + std::to_string(a) + s + std::to_string(v.size())); };
          on ? sig.on(f, _2, _1, _3) : sig.connect(f, _2, _1, _3);
        }
      }
      tags.push_back(tag);
    }
    int evs = r.range(1, 4);
    for (int e = 1; e <= evs; e++) {
      std::string s(r.below(40), 'w');
      std::vector<int> v(r.below(20), 3);
      std::vector<std::string> w;
      for (auto &t: tags) w.push_back(t + std::to_string(e) + s + std::to_string(v.size()));
      log.clear();
      auto v2 = v;
      auto s2 = s;
      int e2  = e;
      if (r.chance(50)) sig.emit(std::move(e2), std::move(s2), std::move(v2));
      else
        sig(std::move(e2), std::move(s2), std::move(v2));
      VH_CHECK(log == w, "C18:signal", "slots called " << vh::showv(log) << " wanted " << vh::showv(w));
      vh::count("c18_signals");
    }
    if (r.chance(50)) {
      // a slot connects further ones while it is called
      int more = r.range(1, 5), got = 0;
      bool done = false;
      std::string own(r.below(60), 'o'), seen;
      sig.on([&, own](int, std::string const &, std::vector<int> const &) {
        if (done) return;
        done = true;
        for (int i = 0; i < more; i++) sig.on([&got](int, std::string, std::vector<int>) { got++; });
        seen = own;
      });
      std::vector<std::string> w;
      for (auto &t: tags) w.push_back(t + "7z1");
      for (int e = 0; e < 2; e++) {
        log.clear();
        got = 0;
        sig.emit(7, "z", std::vector<int>{1});
        VH_CHECK(log == w, "C18:signal-reentrant", "slots called " << vh::showv(log) << " wanted " << vh::showv(w));
        VH_CHECK(seen == own && (e == 0 ? got <= more : got == more), "C18:signal-reentrant", more << " slots connected while emitting were called " << got << " times by emission " << e + 1);
      }
      vh::count("c18_reentrant_signals");
    }
  }
  {
    // subjects passed by reference reach every slot as that very object
    cu::signal<int &, std::string const &> sig;
    int n = r.range(1, 4), acc = 0;
    for (int i = 0; i < n; i++) sig.on([](int &a, std::string const &s) { a += (int) s.size(); });
    std::string txt(r.below(10), 'k');
    sig.emit(acc, txt);
    VH_CHECK(acc == n * (int) txt.size(), "C18:signal-ref", "reference subject changed to " << acc << " by " << n << " slots adding " << txt.size());
  }
  {
    // a subject that cannot be copied is handed over to the slot
    cu::signal<std::unique_ptr<int>> sig;
    int got = -1, v = r.range(0, 1000), calls = 0;
    sig.on([&](std::unique_ptr<int> p) { got = p ? *p : -2, calls++; });
    r.chance(50) ? sig.emit(std::make_unique<int>(v)) : sig(std::make_unique<int>(v));
    VH_CHECK(got == v && calls == 1, "C18:signal-move-only", "the slot was called " << calls << " times and got " << got << " for " << v);
  }
  {
    cu::signal<> sig;
    int n = r.range(0, 5), c = 0;
    for (int i = 0; i < n; i++) sig.on([&c] { c++; });
    sig();
    sig.emit();
    VH_CHECK(c == 2 * n, "C18:signal0", n << " slots called " << c << " times for two emissions");
  }
}
static void c18(Rng &r) {
  c18_model<true, true>(r, "lock+cns");
  c18_model<true, false>(r, "lock");
  c18_model<false, true>(r, "free+cns");
  c18_model<false, false>(r, "free");
  c18_bindable(r);
  c18_signal(r);
}

// ------------------------------------------------------------------ C19: priority queue
struct PItem {
  int pri = 0, sub = 0, serial = -1;
  std::string text; // the elements own memory
  bool operator==(PItem const &o) const { return pri == o.pri && sub == o.sub && serial == o.serial && text == o.text; }
  bool operator!=(PItem const &o) const { return !(*this == o); }
};
static std::ostream &operator<<(std::ostream &os, PItem const &p) { return os << p.pri << '.' << p.sub << '#' << p.serial; }
struct ByPri {
  int operator()(PItem const &a, PItem const &b) const { return a.pri < b.pri ? -1 : a.pri > b.pri ? 1 : 0; }
};
struct BySub { // any magnitude counts, as with strcmp
  int operator()(PItem const &a, PItem const &b) const { return a.sub - b.sub; }
};
struct ByRatio { // a fraction is a difference too
  double operator()(PItem const &a, PItem const &b) const { return (a.pri - b.pri) / 16.0; }
};
struct ByWide { // differences that do not fit an int
  long long operator()(PItem const &a, PItem const &b) const { return ((long long) a.pri - b.pri) * (1LL << 32); }
};
// model: stable order; better(a,b): a leaves first
template<class Q, class Better>
static void pq_model(Rng &r, std::string const &name, Better better, bool iterate) {
  Q q;
  std::vector<PItem> m; // in order of insertion
  auto next = [&]() -> size_t {
    size_t b = 0;
    for (size_t i = 1; i < m.size(); i++)
      if (better(m[i], m[b])) b = i;
    return b;
  };
  auto order = [&] {
    std::vector<PItem> o = m;
    std::stable_sort(o.begin(), o.end(), better);
    return o;
  };
  int ops = r.range(1, 60), spread = r.range(1, 12), serial = 0, bias = r.range(30, 80);
  std::ostringstream h;
  h << name << ":";
  auto mk = [&] {
    PItem p;
    p.pri    = r.range(-spread, spread);
    p.sub    = r.range(0, 3);
    p.serial = serial++;
    p.text   = std::string(r.below(40), (char) ('a' + p.serial % 26));
    return p;
  };
  VH_CHECK(q.empty() && q.size() == 0, "C19:empty", name << ": new queue not empty");
  for (int k = 0; k < ops; k++) {
    int c = (int) r.below(100);
    if (c < bias) {
      PItem p = mk();
      h << " +" << p.pri << '.' << p.sub;
      r.chance(50) ? q.push(p) : q.push_back(p);
      m.push_back(p);
    } else if (c < 94) {
      h << " -";
      if (m.empty()) {
        PItem p = q.pop();
        VH_CHECK(Q::is_null(p), "C19:pop-empty", h.str() << ": pop() of an empty queue gave " << p);
        VH_CHECK(q.size() == 0, "C19:size", h.str() << ": size " << q.size());
        continue;
      }
      size_t w = next();
      if (r.chance(35)) {
        if (!q.empty()) {
          PItem f = q.front();
          VH_CHECK(f == m[w], "C19:front", h.str() << ": front() is " << f << ", next to leave is " << m[w]);
        }
        q.pop_front();
      } else {
        PItem p = q.pop();
        VH_CHECK(p == m[w], "C19:order", h.str() << ": pop() gave " << p << ", wanted " << m[w]);
        vh::count("c19_pops");
      }
      m.erase(m.begin() + (long) w);
    } else if (c < 97) {
      // a copy is independent
      h << " c";
      Q copy(q);
      int t = r.range(0, 3);
      for (int i = 0; i < t; i++) copy.push(mk());
      for (int i = 0; i < t + 1 && !copy.empty(); i++) copy.pop();
      if (r.chance(30)) {
        Q other;
        other.push(mk());
        other = q;
        VH_CHECK(other.size() == m.size(), "C19:copy", h.str() << ": copy has " << other.size() << " elements");
        while (!other.empty()) other.pop();
      }
    } else if (iterate) {
      h << " i";
      auto o = order();
      std::vector<PItem> got;
      size_t guard = 0;
      if (r.chance(50))
        for (auto it = q.begin(); it != q.end() && guard < o.size() + 5; ++it, ++guard) got.push_back(*it);
      else
        for (auto it = q.begin(); it != q.end() && guard < o.size() + 5; ++guard) {
          auto was = it++;
          VH_CHECK(was != it, "C19:iterate", h.str() << ": it++ stays where it was");
          got.push_back(*was);
          VH_CHECK(was->serial == got.back().serial, "C19:iterate", h.str() << ": -> and * of an iterator differ");
        }
      VH_CHECK(got == o, "C19:iterate", h.str() << ": iteration visited " << got.size() << " of " << o.size() << " elements or in another order");
#if !defined(VH_NO_INTERNALS)
      std::vector<PItem> d;
      q.dump([&](typename Q::element *el) {
        for (auto const &x: el->_list) d.push_back(x);
      });
      VH_CHECK(d == o, "C19:dump", h.str() << ": dump visited " << d.size() << " of " << o.size() << " elements or in another order");
#endif
    }
    VH_CHECK(q.size() == m.size() && q.empty() == m.empty(), "C19:size", h.str() << ": size " << q.size() << ", wanted " << m.size());
  }
  // drain
  auto o = order();
  std::vector<PItem> got;
  for (size_t i = 0; i < o.size(); i++) got.push_back(q.pop());
  VH_CHECK(got == o, "C19:drain", h.str() << ": draining gave another order or other elements");
  VH_CHECK(q.empty() && q.size() == 0, "C19:size", h.str() << ": not empty after draining");
  VH_CHECK(Q::is_null(q.pop()), "C19:pop-empty", h.str() << ": something left after draining");
  vh::seen(h.str());
  vh::sample(h.str());
}
static void c19(Rng &r) {
  using L  = std::list<PItem>;
  using Q1 = cmdr::queue::priority_queue<PItem, int, ByPri>;
  using Q2 = cmdr::queue::priority_queue<PItem, int, ByPri, L, true>;
  using Q3 = cmdr::queue::priority_queue<PItem, int, ByPri, std::deque<PItem>>;
  using In = cmdr::queue::priority_queue<PItem, int, BySub>;
  using Q4 = cmdr::queue::priority_queue<PItem, int, ByPri, In>;
  auto greater = [](PItem const &a, PItem const &b) { return a.pri > b.pri; };
  auto less    = [](PItem const &a, PItem const &b) { return a.pri < b.pri; };
  auto nested  = [](PItem const &a, PItem const &b) { return a.pri != b.pri ? a.pri > b.pri : a.sub > b.sub; };
  pq_model<Q1>(r, "list", greater, true);
  pq_model<Q2>(r, "reverse", less, true);
  pq_model<Q3>(r, "deque", greater, true);
  pq_model<Q4>(r, "nested", nested, true);
  pq_model<cmdr::queue::priority_queue<PItem, double, ByRatio>>(r, "ratio", greater, true);
  pq_model<cmdr::queue::priority_queue<PItem, long long, ByWide>>(r, "wide", greater, true);
}

// ------------------------------------------------------------------ C30
template<int I>
struct Single : cu::singleton<Single<I>> {
  static inline std::atomic<int> made{0};
  int value = 0;
  std::vector<int> payload;
  explicit Single(typename cu::singleton<Single<I>>::token) {
    made++;
    vp::nap(I % 4 * 60);
    payload.assign(10, 7);
    value = 4711;
  }
};
template<int I>
struct SArg {
  static inline std::atomic<int> made{0};
  int a;
  std::string b;
  SArg(int x, std::string y)
      : a(x)
      , b(std::move(y)) {
    made++;
    vp::nap(I % 4 * 60);
  }
};
template<int I>
static void single_one(Rng &r, bool conc) {
  int n = conc ? r.range(2, 6) : 1;
  std::vector<Single<I> *> got((size_t) n);
  using SA = cu::singleton_with_optional_construction_args<SArg<I>, int, std::string>;
  std::vector<SArg<I> *> ga((size_t) n);
  std::vector<std::thread> ts;
  std::atomic<bool> go{false};
  std::atomic<int> bad{0};
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      while (!go) std::this_thread::yield();
      auto &s         = Single<I>::instance();
      got[(size_t) t] = &s;
      if (s.value != 4711 || s.payload.size() != 10) bad++;
      auto &a        = SA::instance(t, "n" + std::to_string(t));
      ga[(size_t) t] = &a;
      if (a.b != "n" + std::to_string(a.a)) bad++;
    });
  go = true;
  for (auto &t: ts) t.join();
  auto &s = Single<I>::instance();
  auto &a = SA::instance(99, "n99");
  for (int t = 0; t < n; t++) {
    VH_CHECK(got[(size_t) t] == &s, "C30:singleton", "instance() gave two objects to " << n << " threads");
    VH_CHECK(ga[(size_t) t] == &a, "C30:singleton-args", "instance(args) gave two objects to " << n << " threads");
  }
  VH_CHECK(Single<I>::made == 1, "C30:singleton", "constructed " << Single<I>::made.load() << " times");
  VH_CHECK(SArg<I>::made == 1, "C30:singleton-args", "constructed " << SArg<I>::made.load() << " times");
  VH_CHECK(bad == 0, "C30:singleton", "a thread saw an unfinished object");
  VH_CHECK(a.a < n && a.b == "n" + std::to_string(a.a), "C30:singleton-args", "built from another call's arguments");
  vh::count("c30_singletons", 2);
}

static std::atomic<int> g_alive{0};
namespace fx {
  struct Shape {
    int w;
    std::string label;
    Shape(int a, std::string b)
        : w(a)
        , label(std::move(b)) { g_alive++; }
    virtual ~Shape() { g_alive--; }
    virtual std::string kind() const = 0;
  };
  struct Circle : Shape {
    using Shape::Shape;
    std::string kind() const override { return "fx::Circle"; }
  };
  struct Cir : Shape {
    using Shape::Shape;
    std::string kind() const override { return "fx::Cir"; }
  };
  namespace deep {
    struct Square : Shape {
      using Shape::Shape;
      std::string kind() const override { return "fx::deep::Square"; }
    };
  } // namespace deep
  struct Line : deep::Square {
    using deep::Square::Square;
    std::string kind() const override { return "fx::Line"; }
  };
} // namespace fx
struct TopLevel : fx::Shape {
  using Shape::Shape;
  std::string kind() const override { return "TopLevel"; }
};
static void c30_factory(Rng &r) {
  using F = cu::factory::factory<fx::Shape, fx::Circle, fx::Cir, fx::deep::Square, fx::Line, TopLevel>;
  static std::vector<std::string> const known{"fx::Circle", "fx::Cir", "fx::deep::Square", "fx::Line", "TopLevel"};
  static std::vector<std::string> const unknown{"", "fx::Circl", "fx::Circle2", "Circle", "fx::", "fx::Shape", "Square", "deep::Square", "toplevel", "fx::Circle ", "TopLevel::X"};
  for (int k = 0; k < 6; k++) {
    bool good      = r.chance(70);
    std::string id = good ? r.pick(known) : r.pick(unknown);
    int w          = r.range(-1000, 1000);
    std::string lb(r.below(40), 'L');
    int before = g_alive;
    {
      std::unique_ptr<fx::Shape> u;
      std::shared_ptr<fx::Shape> s;
      fx::Shape *p = nullptr;
      int form     = (int) r.below(4);
      if (form == 0) u = F::create(id, w, lb);
      else if (form == 1) u = F::make_unique(id, w, lb);
      else if (form == 2) s = F::make_shared(id, w, lb);
      else
        u.reset(F::create_naked_ptr(id, w, lb));
      p = u ? u.get() : s.get();
      VH_CHECK(good == (p != nullptr), "C30:factory", "create('" << id << "') form " << form << (p ? " made something" : " made nothing"));
      if (p) {
        VH_CHECK(p->kind() == id, "C30:factory", "create('" << id << "') made a " << p->kind());
        VH_CHECK(p->w == w && p->label == lb, "C30:factory-args", "create('" << id << "'," << w << ",...) passed " << p->w << ',' << p->label);
      }
      VH_CHECK(g_alive == before + (good ? 1 : 0), "C30:factory-count", "create('" << id << "') left " << g_alive - before << " objects");
    }
    VH_CHECK(g_alive == before, "C30:factory-count", "object of '" << id << "' not destroyed with its owner");
    vh::seen("fac" + id + std::to_string(w % 7));
    vh::count("c30_factory");
  }
}
struct Closer {
  std::vector<std::string> *log;
  std::string tag;
  void close() { log->push_back("close" + tag); }
};
static void c30_defer(Rng &r) {
  std::vector<std::string> log, want;
  int depth = r.range(1, 5);
  int how   = r.range(0, 2); // fall through, return, throw
  std::vector<int> kinds;
  for (int i = 0; i < depth; i++) kinds.push_back((int) r.below(5));
  std::function<int(int)> level = [&](int i) -> int {
    if (i == depth) {
      log.push_back("body");
      if (how == 2) throw std::runtime_error("x");
      return i;
    }
    std::string t = std::to_string(i);
    Closer c{&log, t};
    switch (kinds[(size_t) i]) {
      case 0: {
        cu::defer<bool> d([&log, t] { log.push_back("fn" + t); });
        int v = level(i + 1);
        if (how == 1) return v;
        log.push_back("end" + t);
        return v;
      }
      case 1: {
        cu::defer d(c);
        int v = level(i + 1);
        if (how == 1) return v;
        log.push_back("end" + t);
        return v;
      }
      case 2: {
        std::function<void()> f = [&log, t] { log.push_back("fn" + t); };
        cu::defer<Closer, std::function<void()>> d(c, f);
        int v = level(i + 1);
        if (how == 1) return v;
        log.push_back("end" + t);
        return v;
      }
      case 3: {
        cu::defer d(c, [&log, t] { log.push_back("fn" + t); });
        int v = level(i + 1);
        if (how == 1) return v;
        log.push_back("end" + t);
        return v;
      }
      default: {
        std::function<void()> f; // an empty function is nothing to call
        cu::defer<bool> d(f);
        int v = level(i + 1);
        if (how == 1) return v;
        log.push_back("end" + t);
        return v;
      }
    }
  };
  bool threw = false;
  try {
    level(0);
  } catch (std::runtime_error const &) {
    threw = true;
  }
  want.push_back("body");
  for (int i = depth - 1; i >= 0; i--) {
    std::string t = std::to_string(i);
    if (how == 0) want.push_back("end" + t);
    int k = kinds[(size_t) i];
    if (k == 1 || k == 2 || k == 3) want.push_back("close" + t);
    if (k == 0 || k == 2 || k == 3) want.push_back("fn" + t);
  }
  VH_CHECK(log == want && threw == (how == 2), "C30:defer", "leaving by " << how << ": " << vh::showv(log) << " wanted " << vh::showv(want));
  vh::seen(vh::showv(want));
  vh::count("c30_defers", depth);
}
static void c30(Rng &r) {
  bool conc = r.chance(85);
  single_one<0>(r, conc);
  single_one<1>(r, conc);
  single_one<2>(r, conc);
  single_one<3>(r, conc);
  for (int i = 0; i < 4; i++) c30_factory(r);
  for (int i = 0; i < 8; i++) c30_defer(r);
}

int main(int argc, char **argv) {
  vh::RunOpts ro;
  std::string mode;
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  ro.batch  = mode == "C30" ? 1 : 20;
  ro.cpu_s  = 40;
  ro.wall_s = 20;
  return vh::drive(argc, argv, ro, [mode](int64_t, Rng &r) {
    vp::seed()  = r.u64();
    vp::level() = 0;
    if (mode == "C18") c18(r);
    else if (mode == "C18conc") {
      vp::level() = (int) r.below(3);
      r.chance(50) ? c18_conc<true>(r, "cns") : c18_conc<false>(r, "lock");
    } else if (mode == "C19")
      c19(r);
    else {
      vp::level() = (int) r.below(3);
      c30(r);
    }
  });
}
