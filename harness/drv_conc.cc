// C14 thread_pool, C15 thread_pool_lite, C16 message queue, C17 conditional waits.
#include "cmdr11/cmdr_pool.hh"

#include "common.hpp"
#include "perturb.hpp"
#include <chrono>
#include <memory>
#include <thread>

using namespace std::chrono_literals;
using vh::Rng;
namespace cp = cmdr::pool;

static std::atomic<uint64_t> g_tick{1};
static uint64_t tick() { return g_tick.fetch_add(1, std::memory_order_relaxed); }

static void spin_until(std::function<bool()> const &f, int ms, bool &ok) {
  auto t0 = std::chrono::steady_clock::now();
  while (!(ok = f())) {
    if (std::chrono::steady_clock::now() - t0 > std::chrono::milliseconds(ms)) return;
    std::this_thread::yield();
  }
}

// ---- task bookkeeping shared by both pools
struct Rec {
  std::atomic<int> started{0}, finished{0};
  std::atomic<uint64_t> t_start{0};
};
struct Log {
  std::vector<std::unique_ptr<Rec>> recs;
  std::atomic<int> running{0}, max_running{0}, started{0}, finished{0};
  explicit Log(size_t n) {
    for (size_t i = 0; i < n; i++) recs.emplace_back(new Rec);
  }
  void enter(size_t i) {
    int r = running.fetch_add(1, std::memory_order_relaxed) + 1, m = max_running.load(std::memory_order_relaxed);
    while (r > m && !max_running.compare_exchange_weak(m, r, std::memory_order_relaxed)) {}
    recs[i]->t_start.store(tick(), std::memory_order_relaxed);
    recs[i]->started.fetch_add(1, std::memory_order_relaxed);
    started.fetch_add(1, std::memory_order_relaxed);
  }
  void leave(size_t i) {
    recs[i]->finished.fetch_add(1, std::memory_order_relaxed);
    finished.fetch_add(1, std::memory_order_relaxed);
    running.fetch_sub(1, std::memory_order_relaxed);
  }
};
struct Scope {
  Log &l;
  size_t i;
  Scope(Log &l_, size_t i_)
      : l(l_)
      , i(i_) { l.enter(i); }
  ~Scope() { l.leave(i); }
};
struct task_error {
  int id;
};
static void busy(int us) {
  if (us <= 0) return;
  if (us > 30) vp::nap(us);
  else
    for (volatile int i = 0; i < us * 50; i = i + 1) {}
}

// all `n` participants must be inside at once
struct Rendezvous {
  std::mutex m;
  std::condition_variable cv;
  int want, here = 0;
  explicit Rendezvous(int n)
      : want(n) {}
  bool meet() {
    std::unique_lock<std::mutex> l(m);
    here++;
    cv.notify_all();
    return cv.wait_for(l, 15s, [&] { return here >= want; });
  }
};
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return open; });
  }
  void go() {
    {
      std::unique_lock<std::mutex> l(m);
      open = true;
    }
    cv.notify_all();
  }
};

template<class Fut>
static int outcome(Fut &f, int &val) { // 1 value, 2 task_error, 3 broken promise, 4 other, 0 not ready, -1 no state
  if (!f.valid()) return -1;
  if (f.wait_for(0s) != std::future_status::ready) return 0;
  try {
    val = f.get();
    return 1;
  } catch (task_error const &e) {
    val = e.id;
    return 2;
  } catch (std::future_error const &e) {
    return e.code() == std::future_errc::broken_promise ? 3 : 4;
  } catch (...) {
    return 4;
  }
}

// ------------------------------------------------------------------ C14
static void c14(int64_t cs, Rng &r) {
  static int const sizes[] = {1, 1, 2, 2, 3, 4, 5, 8};
  int n                    = r.pick(sizes[0] ? std::vector<int>(sizes, sizes + 8) : std::vector<int>());
  bool dflt                = r.chance(4);
  if (dflt) n = r.chance(50) ? 0 : -1;
  size_t workers = n > 0 ? (size_t) n : std::thread::hardware_concurrency();
  int producers  = r.range(1, 4);
  int per        = r.range(0, 30);
  int burst      = r.range(0, 25);
  int late       = r.chance(30) ? r.range(1, 10) : 0; // queued by another thread around and after join
  bool nested    = r.chance(40);
  bool by_dtor   = r.chance(35);
  bool again     = r.chance(40);
  bool rv        = r.chance(50);
  bool order     = n == 1 && r.chance(60);
  size_t total   = (size_t) (producers * per) * 2 + (size_t) burst + (size_t) late + 64;
  Log log(total);
  std::atomic<size_t> next{0};
  std::ostringstream shape;
  shape << "pool(" << n << ") producers=" << producers << " per=" << per << " burst=" << burst << " late=" << late << " nested=" << nested << " dtor=" << by_dtor << " rv=" << rv << " order=" << order;
  std::string S = shape.str();
  vh::sample(S);
  vh::seen(S + "#" + std::to_string(vp::seed().load() % 16));

  using Fut = std::future<int>;
  struct Item {
    size_t id;
    bool thr;
    Fut f;
  };
  std::vector<Item> burst_items, late_items;
  std::thread late_thr;
  std::atomic<bool> stop_watch{false};
  std::atomic<bool> over{false}, total_bad{false};
  {
    auto pool = std::make_unique<cp::thread_pool>(n);
    VH_CHECK(pool->total_threads() == workers, "C14:size", S << ": total_threads()=" << pool->total_threads() << ", wanted " << workers);
    VH_CHECK(pool->active_threads() == 0, "C14:active-idle", S << ": active before any task");
    auto mk = [&](size_t id, bool thr, int us) {
      return [&log, id, thr, us]() -> int {
        Scope s(log, id);
        busy(us);
        if (thr) throw task_error{(int) id};
        return (int) id * 7 + 1;
      };
    };
    std::thread watch([&] {
      while (!stop_watch.load()) {
        if (pool->active_threads() > workers) over = true;
        std::this_thread::yield();
      }
    });
    if (rv) {
      Rendezvous meet((int) workers);
      std::vector<std::future<bool>> fs;
      for (size_t i = 0; i < workers; i++) fs.push_back(pool->queue_task([&meet] { return meet.meet(); }));
      bool all = true;
      for (auto &f: fs) all = f.get() && all;
      VH_CHECK(all, "C14:parallel", S << ": " << workers << " queued tasks were not all running at once");
      vh::count("c14_rendezvous");
    }
    if (order) {
      Gate gate;
      std::atomic<bool> in{false};
      auto g = pool->queue_task([&] { in = true; gate.wait(); return 0; });
      while (!in) std::this_thread::yield();
      std::vector<int> ran;
      std::vector<std::future<void>> fs;
      int k = r.range(2, 8);
      for (int i = 0; i < k; i++) fs.push_back(pool->queue_task([&ran, i] { ran.push_back(i); }));
      gate.go();
      for (auto &f: fs) f.get();
      g.get();
      bool ok = (int) ran.size() == k;
      for (int i = 0; ok && i < k; i++) ok = ran[(size_t) i] == k - 1 - i;
      VH_CHECK(ok, "C14:newest-first", S << ": one worker did not take the newest task first");
      vh::count("c14_order");
    }
    {
      // every way to hand a task over: const, lvalue, temporary, plain function, move-only result
      int a               = r.range(0, 1000);
      auto const constant = [a]() -> std::string { return std::to_string(a) + std::string(40, 'z'); };
      int hits            = 0;
      auto lvalue         = [&hits]() { hits++; };
      auto f1             = pool->queue_task(constant);
      auto f2             = pool->queue_task(lvalue);
      auto f3             = pool->queue_task([a]() { return std::make_unique<int>(a); });
      auto f4             = pool->queue_task(std::function<long()>([a]() { return (long) a * 3; }));
      std::string s1      = f1.get();
      f2.get();
      auto s3 = f3.get();
      long s4 = f4.get();
      VH_CHECK(s1 == constant() && hits == 1 && s3 && *s3 == a && s4 == a * 3L, "C14:result", S << ": results of differently typed tasks: " << s1 << ',' << hits << ',' << s4);
    }
    // several producers, everything is waited for
    std::vector<std::thread> ps;
    std::vector<std::vector<Item>> items((size_t) producers);
    std::vector<uint64_t> seeds;
    for (int p = 0; p < producers; p++) seeds.push_back(r.u64());
    std::vector<std::vector<Item>> kids((size_t) producers);
    std::vector<std::unique_ptr<std::mutex>> km;
    for (int p = 0; p < producers; p++) km.emplace_back(new std::mutex);
    for (int p = 0; p < producers; p++)
      ps.emplace_back([&, p] {
        Rng q(seeds[(size_t) p]);
        for (int i = 0; i < per; i++) {
          size_t id = next.fetch_add(1);
          bool thr  = q.chance(15);
          int us    = q.chance(30) ? q.range(0, 60) : 0;
          if (nested && q.chance(30)) {
            size_t kid = next.fetch_add(1);
            auto inner = mk(kid, false, 0);
            auto outer = mk(id, thr, us);
            auto f     = pool->queue_task([&, p, kid, inner, outer]() mutable -> int {
              auto kf = pool->queue_task(std::move(inner));
              {
                std::lock_guard<std::mutex> l(*km[(size_t) p]);
                kids[(size_t) p].push_back(Item{kid, false, std::move(kf)});
              }
              return outer();
            });
            items[(size_t) p].push_back(Item{id, thr, std::move(f)});
          } else
            items[(size_t) p].push_back(Item{id, thr, pool->queue_task(mk(id, thr, us))});
          if (q.chance(10)) busy(q.range(0, 80));
        }
        for (auto &it: items[(size_t) p]) it.f.wait();
      });
    for (auto &t: ps) t.join();
    auto judge = [&](Item &it, char const *what) {
      int v = 0, o = outcome(it.f, v);
      VH_CHECK(o == (it.thr ? 2 : 1) && v == (it.thr ? (int) it.id : (int) it.id * 7 + 1), "C14:result", S << ": " << what << " task " << it.id << " outcome " << o << " value " << v);
      VH_CHECK(log.recs[it.id]->started == 1, "C14:exactly-once", S << ": " << what << " task " << it.id << " ran " << log.recs[it.id]->started.load() << " times");
      vh::count("c14_tasks");
    };
    for (auto &v: items)
      for (auto &it: v) judge(it, "waited");
    for (int p = 0; p < producers; p++)
      for (auto &it: kids[(size_t) p]) {
        it.f.wait();
        judge(it, "nested");
      }
    bool ok;
    spin_until([&] { return pool->active_threads() == 0; }, 8000, ok);
    VH_CHECK(ok, "C14:active-idle", S << ": active_threads()=" << pool->active_threads() << " with nothing left to run");
    VH_CHECK(log.max_running <= (int) workers, "C14:concurrency", S << ": " << log.max_running.load() << " tasks ran at once");
    VH_CHECK(pool->tasks().empty(), "C14:empty", S << ": tasks left although all were waited for");

    // a burst cut short by join() or by the destructor
    for (int i = 0; i < burst; i++) {
      size_t id = next.fetch_add(1);
      bool thr  = r.chance(10);
      burst_items.push_back(Item{id, thr, pool->queue_task(mk(id, thr, r.chance(50) ? r.range(0, 150) : 0))});
    }
    if (late && !by_dtor) {
      uint64_t sd = r.u64();
      late_thr    = std::thread([&, sd] {
        Rng q(sd);
        for (int i = 0; i < late; i++) {
          size_t id = next.fetch_add(1);
          late_items.push_back(Item{id, false, pool->queue_task(mk(id, false, 0))});
          busy(q.range(0, 60));
        }
      });
    }
    if (r.chance(50)) busy(r.range(0, 200));
    stop_watch = true;
    watch.join();
    if (by_dtor) {
      pool.reset();
    } else {
      pool->join();
      int st = log.started, fi = log.finished;
      VH_CHECK(st == fi, "C14:join-waits", S << ": " << (st - fi) << " tasks still running after join()");
      VH_CHECK(pool->total_threads() == 0, "C14:join-size", S << ": total_threads()=" << pool->total_threads() << " after join()");
      VH_CHECK(pool->active_threads() == 0, "C14:join-active", S << ": active after join()");
      for (auto &it: burst_items)
        VH_CHECK(it.f.wait_for(0s) == std::future_status::ready, "C14:join-discards", S << ": task " << it.id << " was queued before join(), did not start, and its future still waits");
      if (!late) VH_CHECK(pool->tasks().empty(), "C14:join-empties", S << ": tasks left in the queue after join()");
      if (again) pool->join();
      if (late_thr.joinable()) late_thr.join();
      if (r.chance(50)) busy(300);
      VH_CHECK(log.started == st, "C14:none-after-join", S << ": " << (log.started - st) << " tasks started after join()");
      pool.reset();
    }
  }
  int st = log.started, fi = log.finished;
  VH_CHECK(st == fi, "C14:dtor-waits", S << ": tasks still running after the pool is gone");
  VH_CHECK(!over, "C14:active-count", S << ": active_threads() above the pool size");
  int ran = 0, dropped = 0;
  auto judge = [&](Item &it, char const *what) {
    int s = log.recs[it.id]->started, v = 0;
    int o = outcome(it.f, v);
    VH_CHECK(s <= 1, "C14:exactly-once", S << ": " << what << " task " << it.id << " ran " << s << " times");
    if (s) {
      ran++;
      VH_CHECK(o == (it.thr ? 2 : 1) && v == (it.thr ? (int) it.id : (int) it.id * 7 + 1), "C14:result", S << ": " << what << " task " << it.id << " ran but outcome " << o << " value " << v);
    } else {
      dropped++;
      VH_CHECK(o == 3, "C14:dropped", S << ": " << what << " task " << it.id << " never ran but its future says " << o);
    }
  };
  for (auto &it: burst_items) judge(it, "burst");
  for (auto &it: late_items) judge(it, "late");
  vh::count("c14_burst_ran", ran);
  vh::count("c14_burst_dropped", dropped);
  (void) cs;
}

// ------------------------------------------------------------------ C15
static int add3(int a, int b, int c) { return a * 100 + b * 10 + c; }
struct Obj {
  int base;
  int plus(int x) const { return base + x; }
};
static void c15(int64_t, Rng &r) {
  int n         = r.pick(std::vector<int>{1, 1, 2, 2, 3, 4, 8});
  int producers = r.range(1, 4);
  int per       = r.range(0, 30);
  bool nested   = r.chance(40);
  bool wait_all = r.chance(50);
  bool rv       = r.chance(50);
  size_t total  = (size_t) (producers * per) * 2 + 64;
  std::ostringstream shape;
  shape << "lite(" << n << ") producers=" << producers << " per=" << per << " nested=" << nested << " wait=" << wait_all << " rv=" << rv;
  std::string S = shape.str();
  vh::sample(S);
  vh::seen(S + "#" + std::to_string(vp::seed().load() % 16));
  Log log(total);
  std::atomic<size_t> next{0};
  struct Item {
    size_t id;
    bool thr;
    std::future<int> f;
    uint64_t t_in, t_out; // ticks around the enqueue call
  };
  std::vector<std::vector<Item>> items((size_t) producers);
  std::mutex km;
  std::vector<Item> kids;
  int refused = 0;
  int arg_sum = 0;
  {
    auto pool = std::make_unique<cp::thread_pool_lite>((size_t) n);
    if (rv) {
      Rendezvous meet(n);
      std::vector<std::future<bool>> fs;
      for (int i = 0; i < n; i++) fs.push_back(pool->enqueue([&meet] { return meet.meet(); }));
      bool all = true;
      for (auto &f: fs) all = f.get() && all;
      VH_CHECK(all, "C15:parallel", S << ": " << n << " tasks were not all running at once");
    }
    {
      // argument passing
      int a = r.range(0, 9), b = r.range(0, 9), c = r.range(0, 9), ref = 0;
      auto f1 = pool->enqueue(add3, a, b, c);
      Obj o{a};
      auto f2 = pool->enqueue(&Obj::plus, o, b);
      auto f3 = pool->enqueue([](std::string const &s, size_t k) { return s.substr(k); }, std::string("hello world"), (size_t) b);
      auto f4 = pool->enqueue([](int &x, int v) { x = v; }, std::ref(ref), c + 1);
      o.base  = 1000;
      f4.get();
      VH_CHECK(f1.get() == a * 100 + b * 10 + c, "C15:args", S << ": plain arguments");
      VH_CHECK(f2.get() == a + b, "C15:args", S << ": bound object not copied");
      VH_CHECK(f3.get() == std::string("hello world").substr((size_t) b), "C15:args", S << ": string argument");
      VH_CHECK(ref == c + 1, "C15:args", S << ": std::ref");
    }
    std::vector<std::thread> ps;
    std::vector<uint64_t> seeds;
    for (int p = 0; p < producers; p++) seeds.push_back(r.u64());
    auto body = [&log](size_t id, bool thr, int us) -> int {
      Scope s(log, id);
      busy(us);
      if (thr) throw task_error{(int) id};
      return (int) id * 7 + 1;
    };
    for (int p = 0; p < producers; p++)
      ps.emplace_back([&, p] {
        Rng q(seeds[(size_t) p]);
        for (int i = 0; i < per; i++) {
          bool thr = q.chance(15);
          int us   = q.chance(30) ? q.range(0, 60) : 0;
          size_t id = next.fetch_add(1);
          if (nested && q.chance(30)) {
            size_t kid = next.fetch_add(1);
            auto *pp   = pool.get();
            uint64_t t0 = tick();
            auto f     = pool->enqueue([&, pp, kid, id, thr, us]() -> int {
              try {
                uint64_t k0 = tick();
                auto kf = pp->enqueue(body, kid, false, 0);
                std::lock_guard<std::mutex> l(km);
                kids.push_back(Item{kid, false, std::move(kf), k0, tick()});
              } catch (std::runtime_error const &) {
                std::lock_guard<std::mutex> l(km);
                refused++;
              }
              return body(id, thr, us);
            });
            items[(size_t) p].push_back(Item{id, thr, std::move(f), t0, tick()});
          } else {
            uint64_t t0 = tick();
            auto f      = pool->enqueue(body, id, thr, us);
            items[(size_t) p].push_back(Item{id, thr, std::move(f), t0, tick()});
          }
          if (q.chance(10)) busy(q.range(0, 80));
        }
        if (wait_all)
          for (auto &it: items[(size_t) p]) it.f.wait();
      });
    for (auto &t: ps) t.join();
    if (r.chance(50)) busy(r.range(0, 100));
    pool.reset();
  }
  (void) arg_sum;
  VH_CHECK(log.started == log.finished, "C15:dtor-waits", S << ": tasks still running after the pool is gone");
  VH_CHECK(log.max_running <= n, "C15:concurrency", S << ": " << log.max_running.load() << " tasks at once");
  VH_CHECK(!wait_all || nested || refused == 0, "C15:refused", S << ": refused while running");
  std::vector<Item *> all;
  for (auto &v: items)
    for (auto &it: v) all.push_back(&it);
  for (auto &it: kids) all.push_back(&it);
  for (auto *it: all) {
    int v = 0, o = outcome(it->f, v), s = log.recs[it->id]->started;
    VH_CHECK(s == 1, "C15:exactly-once", S << ": accepted task " << it->id << " ran " << s << " times");
    VH_CHECK(o == (it->thr ? 2 : 1) && v == (it->thr ? (int) it->id : (int) it->id * 7 + 1), "C15:result", S << ": task " << it->id << " outcome " << o << " value " << v);
    vh::count("c15_tasks");
  }
  // first in, first out: when a task starts, every task enqueued (entirely) before it has been taken by one of the other n-1 workers or has started
  for (auto *b: all) {
    int behind  = 0;
    uint64_t bs = log.recs[b->id]->t_start;
    for (auto *a: all)
      if (b->t_in > a->t_out && bs < log.recs[a->id]->t_start) behind++;
    VH_CHECK(behind <= n - 1, "C15:fifo", S << ": task " << b->id << " started before " << behind << " tasks enqueued earlier");
  }
  vh::count("c15_refused", refused);
}

// ------------------------------------------------------------------ C16
struct Msg {
  uint32_t producer, seq;
  std::shared_ptr<int> canary;
};
static void c16_seq(Rng &r) {
  cp::threaded_message_queue<std::string> q;
  std::vector<std::string> model;
  int ops = r.range(5, 60);
  VH_CHECK(q.empty(), "C16:empty", "a new queue is not empty");
  std::ostringstream h;
  for (int i = 0; i < ops; i++) {
    if (model.empty() || r.chance(55)) {
      std::string s = "m" + std::to_string(r.below(1000)) + std::string(r.below(40), 'x');
      model.push_back(s);
      h << 'u';
      q.emplace_back(std::move(s));
    } else {
      h << 'o';
      auto o = q.pop_front();
      VH_CHECK(o.has_value() && *o == model.back(), "C16:newest", h.str() << ": took " << (o ? *o : "nothing") << " instead of " << model.back());
      model.pop_back();
    }
    VH_CHECK(q.empty() == model.empty(), "C16:empty", h.str() << ": empty()=" << q.empty());
  }
  q.clear();
  VH_CHECK(q.empty(), "C16:clear", h.str() << ": not empty after clear()");
  VH_CHECK(!q.pop_front().has_value(), "C16:clear", h.str() << ": a cleared queue still hands out messages");
  vh::seen("seq" + h.str());
  vh::count("c16_seq");
}
static void c16(int64_t, Rng &r) {
  c16_seq(r);
  int producers = r.range(1, 4), consumers = r.range(1, 4), per = r.range(0, 60);
  bool early  = r.chance(40);
  bool poller = r.chance(50);
  std::ostringstream sh;
  sh << "queue producers=" << producers << " consumers=" << consumers << " per=" << per << " early=" << early;
  std::string S = sh.str();
  vh::sample(S);
  struct Ev {
    uint64_t a = 0, b = 0;
    int times = 0, who = -1;
  };
  std::vector<std::vector<Ev>> push((size_t) producers, std::vector<Ev>((size_t) per));
  struct Got {
    uint32_t p, s;
    uint64_t a, b;
  };
  std::vector<std::vector<Got>> got((size_t) consumers);
  std::vector<int> ended((size_t) consumers, 0);
  auto canary = std::make_shared<int>(42);
  std::atomic<int> consumed{0};
  std::atomic<bool> stop{false};
  {
    cp::threaded_message_queue<Msg> q;
    std::vector<std::thread> ts, cs2;
    std::vector<uint64_t> seeds;
    for (int i = 0; i < producers + consumers; i++) seeds.push_back(r.u64());
    for (int c = 0; c < consumers; c++)
      cs2.emplace_back([&, c] {
        Rng z(seeds[(size_t) (producers + c)]);
        for (;;) {
          uint64_t t0 = tick();
          auto o      = q.pop_front();
          uint64_t t1 = tick();
          if (!o) break;
          got[(size_t) c].push_back(Got{o->producer, o->seq, t0, t1});
          if (!o->canary || *o->canary != 42) vh::violation("C16:content", S + ": message content damaged");
          consumed.fetch_add(1, std::memory_order_relaxed);
          if (z.chance(10)) busy(z.range(0, 60));
        }
        ended[(size_t) c] = 1;
      });
    std::thread poll;
    if (poller) poll = std::thread([&] {
      int64_t e = 0;
      while (!stop.load(std::memory_order_relaxed)) {
        e += q.empty();
        std::this_thread::yield();
      }
      vh::count("c16_polled", e);
    });
    for (int p = 0; p < producers; p++)
      ts.emplace_back([&, p] {
        Rng z(seeds[(size_t) p]);
        for (int i = 0; i < per; i++) {
          Msg m{(uint32_t) p, (uint32_t) i, canary};
          push[(size_t) p][(size_t) i].a = tick();
          q.emplace_back(std::move(m));
          push[(size_t) p][(size_t) i].b = tick();
          if (z.chance(10)) busy(z.range(0, 60));
        }
      });
    if (early) {
      busy(r.range(0, 400));
      q.clear();
      for (auto &t: ts) t.join();
    } else {
      for (auto &t: ts) t.join();
      bool ok;
      spin_until([&] { return consumed.load(std::memory_order_relaxed) == producers * per; }, 8000, ok);
      VH_CHECK(ok, "C16:lost", S << ": only " << consumed.load() << " of " << producers * per << " messages were taken by waiting consumers");
      q.clear();
    }
    for (auto &t: cs2) t.join(); // hangs if clear() does not wake every consumer
    stop = true;
    if (poll.joinable()) poll.join();
    VH_CHECK(!q.pop_front().has_value(), "C16:after-clear", S << ": message handed out after clear()");
    VH_CHECK(early || q.empty(), "C16:empty", S << ": not empty at the end");
  }
  std::vector<Got> all;
  for (auto &g: got) all.insert(all.end(), g.begin(), g.end());
  std::map<std::pair<uint32_t, uint32_t>, Got> by;
  for (auto &g: all) {
    bool valid = g.p < (uint32_t) producers && g.s < (uint32_t) per;
    VH_CHECK(valid, "C16:invented", S << ": a message nobody sent");
    if (!valid) continue;
    int t = ++push[g.p][g.s].times;
    VH_CHECK(t == 1, "C16:duplicate", S << ": message " << g.p << '/' << g.s << " taken " << t << " times");
    VH_CHECK(g.b > push[g.p][g.s].a, "C16:causality", S << ": taken before it was put");
    by[{g.p, g.s}] = g;
  }
  // newest first: b put entirely after a and both in before a's taker started, yet b taken entirely after a
  if (!early)
    for (auto &[ka, ga]: by)
      for (auto &[kb, gb]: by) {
        auto &pa = push[ka.first][ka.second], &pb = push[kb.first][kb.second];
        if (pa.b < pb.a && pb.b < ga.a && ga.b < gb.a) VH_CHECK(false, "C16:newest", S << ": " << ka.first << '/' << ka.second << " was taken before the newer " << kb.first << '/' << kb.second);
      }
  vh::count("c16_msgs", (int64_t) all.size());
  VH_CHECK(canary.use_count() == 1, "C16:dropped", S << ": " << canary.use_count() - 1 << " messages still alive after the queue is gone");
  // distinct interleavings actually observed: order in which producers' messages came out
  std::sort(all.begin(), all.end(), [](Got const &a, Got const &b) { return a.b < b.b; });
  uint64_t hsh = 7;
  for (auto &g: all) hsh = hsh * 1099511628211ull + g.p * 131 + g.s;
  if (all.size() > 1) vh::seen(hsh);
}

// ------------------------------------------------------------------ C17
template<class CW>
struct Waiters {
  // every waiter takes one of the wait forms and must not come back before the condition holds
  CW &cw;
  std::function<bool()> cond; // read without the lock: an atomic mirror set before cw.set()
  std::vector<std::thread> ts;
  std::atomic<int> back{0};
  std::string S;
  void spawn(int form, int delay) {
    ts.emplace_back([this, form, delay] {
      busy(delay);
      bool ok = true;
      switch (form) {
        case 0: cw.wait(); break;
        case 1: ok = cw.wait_for(30s); break;
        case 2: ok = cw.wait_until(std::chrono::steady_clock::now() + 30s); break;
        case 3: ok = cw.wait_until(std::chrono::system_clock::now() + 30s); break;
        case 4: ok = cw.wait_for(); break;
        default: ok = cw.wait_until(); break;
      }
      bool c = cond();
      VH_CHECK(ok, "C17:timeout-early", S << ": wait form " << form << " gave up long before its time");
      VH_CHECK(c, "C17:early", S << ": wait form " << form << " came back before the condition was set");
      back.fetch_add(1);
      vh::count("c17_waits");
    });
  }
  ~Waiters() {
    for (auto &t: ts)
      if (t.joinable()) t.join();
  }
};
static void c17_bool(Rng &r, bool killer) {
  int w    = r.range(1, 5);
  int how  = r.range(0, 3); // 0 set one per waiter, 1 set_for_all, 2 kill, 3 cw_setter per waiter
  int when = r.range(0, 2); // before, during, after
  std::ostringstream sh;
  sh << (killer ? "timer_killer" : "bool") << " waiters=" << w << " how=" << how << " when=" << when;
  std::atomic<bool> flag{false};
  std::vector<int> forms, delays;
  for (int i = 0; i < w; i++) forms.push_back(r.range(0, 5)), delays.push_back(r.chance(50) ? r.range(0, 150) : 0), sh << ',' << forms.back();
  std::string S = sh.str();
  vh::seen(S);
  vh::sample(S);
  auto run = [&](auto &cw) {
    auto fire = [&] {
      flag.store(true, std::memory_order_relaxed);
      switch (how) {
        case 0:
          for (int i = 0; i < w; i++) cw.set();
          break;
        case 1: cw.set_for_all(); break;
        case 2: cw.kill(); break;
        default:
          for (int i = 0; i < w; i++) {
            cp::cw_setter<std::decay_t<decltype(cw)>> s(cw);
          }
      }
    };
    if (when == 0) fire();
    {
      Waiters<std::decay_t<decltype(cw)>> ws{cw, [&] { return flag.load(std::memory_order_relaxed); }, {}, {0}, S};
      for (int i = 0; i < w; i++) ws.spawn(forms[(size_t) i], delays[(size_t) i]);
      if (when) {
        if (when == 2) busy(400);
        VH_CHECK(ws.back == 0 || flag, "C17:early", S << ": a waiter came back before anything was set");
        fire();
      }
    }
    VH_CHECK(cw.val(), "C17:val", S << ": val() false after set");
    // already set: every form returns at once and true
    VH_CHECK(cw.wait_for(0s), "C17:set-stays", S << ": wait_for(0) false although set");
    VH_CHECK(cw.wait_until(std::chrono::steady_clock::now() - 1s), "C17:set-stays", S << ": wait_until(past) false although set");
    cw.wait();
    cw.clear();
  };
  if (killer) {
    cp::timer_killer k;
    VH_CHECK(!k.terminated(), "C17:val", S << ": terminated() at birth");
    run(k);
    VH_CHECK(k.terminated(), "C17:val", S << ": not terminated() after kill");
  } else {
    cp::conditional_wait_for_bool b;
    run(b);
  }
}
static void c17_int(Rng &r) {
  int n = r.range(1, 6), w = r.range(1, 4), extra = r.range(0, 2), setters = r.range(1, 3);
  std::ostringstream sh;
  sh << "int(" << n << ") waiters=" << w << " setters=" << setters << " extra=" << extra;
  std::vector<int> forms;
  for (int i = 0; i < w; i++) forms.push_back(r.range(0, 5)), sh << ',' << forms.back();
  std::string S = sh.str();
  vh::seen(S);
  cp::conditional_wait_for_int cw(n);
  VH_CHECK(cw.max_val() == n && cw.val() == 0, "C17:val", S << ": starts at " << cw.val() << "/" << cw.max_val());
  std::atomic<int> sets{0};
  {
    Waiters<cp::conditional_wait_for_int> ws{cw, [&] { return sets.load(std::memory_order_relaxed) >= n; }, {}, {0}, S};
    for (int i = 0; i < w; i++) ws.spawn(forms[(size_t) i], r.chance(50) ? r.range(0, 150) : 0);
    if (n > 1) {
      // one short of the target: nobody may come back
      for (int i = 0; i < n - 1; i++) {
        sets.fetch_add(1, std::memory_order_relaxed);
        r.chance(50) ? cw.set() : cw.set_for_all();
      }
      VH_CHECK(!cw.wait_for(std::chrono::microseconds(r.range(0, 300))), "C17:count", S << ": condition true one set too early");
      if (r.chance(50)) busy(200);
      VH_CHECK(ws.back == 0, "C17:early", S << ": a waiter came back one set too early");
    }
    std::vector<std::thread> st;
    for (int i = 0; i < setters; i++) st.emplace_back([&] {
      for (int k = 0; k < 1 + extra; k++) {
        sets.fetch_add(1, std::memory_order_relaxed);
        cw.set_for_all();
      }
    });
    for (auto &t: st) t.join();
  }
  VH_CHECK(cw.val() == n - 1 + setters * (1 + extra), "C17:count", S << ": val()=" << cw.val());
}
static void c17_one(Rng &r) {
  // set() wakes one waiter per call: n blocked waiters, n sets (the predicate holds after the first)
  int w = r.range(1, 5);
  cp::conditional_wait_for_int cw(1);
  std::atomic<int> back{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < w; i++) ts.emplace_back([&] {
    cw.wait();
    back++;
  });
  if (r.chance(50)) busy(r.range(0, 500));
  for (int i = 0; i < w; i++) cw.set();
  for (auto &t: ts) t.join();
  VH_CHECK(back == w, "C17:wakeup", "set() x " << w << " woke " << back.load());
  vh::count("c17_waits", w);
}
static void c17_timeouts(Rng &r) {
  cp::conditional_wait_for_bool b;
  cp::timer_killer k;
  int ms = r.range(0, 12);
  auto t0 = std::chrono::steady_clock::now();
  bool f  = r.chance(50) ? b.wait_for(std::chrono::milliseconds(ms)) : k.wait_for(std::chrono::microseconds(ms * 1000));
  auto el = std::chrono::steady_clock::now() - t0;
  VH_CHECK(!f, "C17:timeout", "wait_for(" << ms << "ms) true although nothing was set");
  VH_CHECK(el >= std::chrono::milliseconds(ms), "C17:timeout-early", "wait_for(" << ms << "ms) gave up after " << std::chrono::duration_cast<std::chrono::microseconds>(el).count() << "us");
  auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  f          = r.chance(50) ? b.wait_until(until) : k.wait_until(until);
  VH_CHECK(!f, "C17:timeout", "wait_until true although nothing was set");
  VH_CHECK(std::chrono::steady_clock::now() >= until, "C17:timeout-early", "wait_until gave up early");
  VH_CHECK(!k.terminated() && !b.val(), "C17:timeout", "a timeout set the condition");
  vh::count("c17_timeouts", 2);
}
static void c17_loop(Rng &r) {
  // the documented timer loop
  cp::timer_killer tk;
  std::atomic<int> ticks{0};
  std::atomic<bool> killed{false};
  int step = r.range(0, 300);
  std::thread t([&] {
    while (!tk.wait_for(std::chrono::microseconds(step))) {
      ticks.fetch_add(1, std::memory_order_relaxed);
      if (ticks.load(std::memory_order_relaxed) > 2000000) break;
    }
    VH_CHECK(killed.load(std::memory_order_relaxed), "C17:early", "timer loop ended without kill()");
  });
  busy(r.range(0, 1500));
  bool st = tk.terminated();
  VH_CHECK(!st, "C17:early", "terminated() before kill()");
  killed.store(true, std::memory_order_relaxed);
  if (r.chance(30)) {
    std::thread a([&] { tk.kill(); }), b([&] { tk.set_for_all(); });
    (void) tk.terminated();
    a.join();
    b.join();
  } else
    tk.kill();
  t.join();
  VH_CHECK(tk.terminated(), "C17:val", "not terminated() after kill()");
  vh::count("c17_ticks", ticks.load());
}
static void c17(int64_t, Rng &r) {
  c17_bool(r, false);
  c17_bool(r, true);
  c17_int(r);
  c17_one(r);
  if (r.chance(40)) c17_timeouts(r);
  c17_loop(r);
}

int main(int argc, char **argv) {
  vh::RunOpts ro;
  ro.batch  = 10;
  ro.cpu_s  = 60;
  ro.wall_s = 20;
  return vh::drive(argc, argv, ro, [](int64_t c, Rng &r) {
    vp::seed()  = r.u64();
    vp::level() = (int) r.below(3);
    auto p0     = vp::points().load();
    auto &m     = vh::opt().mode;
    if (m == "C14") c14(c, r);
    else if (m == "C15") c15(c, r);
    else if (m == "C16") c16(c, r);
    else c17(c, r);
    vp::level() = 0;
    vh::count("perturbations", vp::points().load() - p0);
  });
}
