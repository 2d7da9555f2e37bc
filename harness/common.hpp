// Shared harness for every driver: deterministic RNG, case runner with crash isolation, violation/statistics log.
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef VH_COVERAGE
extern "C" int __llvm_profile_write_file(void);
#endif
namespace vh {

  inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  inline uint64_t fnv(void const *p, size_t n, uint64_t h = 1469598103934665603ull) {
    auto *c = (unsigned char const *) p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
  }
  inline uint64_t fnv(std::string const &s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(seed) {
      splitmix(s);
    }
    uint64_t u64() { return splitmix(s); }
    // uniform in [0,n)
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int range(int a, int b) { return a + (int) below((uint64_t) (b - a + 1)); }
    bool chance(int pct) { return (int) below(100) < pct; }
    template<class C>
    auto const &pick(C const &c) { return c[(size_t) below(c.size())]; }
  };

  inline std::string jesc(std::string const &s) {
    std::string o;
    char b[8];
    for (unsigned char c: s) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += (char) c;
      } else if (c < 0x20 || c >= 0x7f) {
        std::snprintf(b, sizeof b, "\\u%04x", c);
        o += b;
      } else
        o += (char) c;
    }
    return o;
  }
  inline std::string show(std::string const &s) {
    std::string o = "'";
    char b[8];
    for (unsigned char c: s) {
      if (c < 0x20 || c >= 0x7f || c == '\\') {
        std::snprintf(b, sizeof b, "\\x%02x", c);
        o += b;
      } else
        o += (char) c;
    }
    return o + "'";
  }
  template<class V>
  inline std::string showv(V const &v) {
    std::string o = "[";
    for (auto const &s: v) {
      if (o.size() > 1) o += ' ';
      o += show(s);
    }
    return o + "]";
  }

  // ---- shared block between the supervising parent and the case children
  enum { MAXCTR = 96, NAMELEN = 48 };
  struct Shared {
    std::atomic<int64_t> current;
    std::atomic<int64_t> done;
    std::atomic<int> samples;
    std::atomic<int> viols;
    std::atomic<int64_t> ctr[MAXCTR];
    char ctr_name[MAXCTR][NAMELEN];
    std::atomic<int> nctr;
    std::atomic<int> lock;
  };
  inline Shared *&sh() {
    static Shared *p = nullptr;
    return p;
  }
  struct Opt {
    std::string prop, tier = "quick", out, scratch = ".", mode;
    uint64_t seed   = 1;
    int64_t from = 0, to = 1;
    bool unpriv = false;
    bool verbose = false;
  };
  inline Opt &opt() {
    static Opt o;
    return o;
  }
  inline int &out_fd() {
    static int fd = -1;
    return fd;
  }
  inline int &hash_fd() {
    static int fd = -1;
    return fd;
  }
  inline void emit(std::string const &line) {
    std::string l = line + "\n";
    if (out_fd() >= 0) {
      if (::write(out_fd(), l.data(), l.size()) < 0) {}
    }
  }

  // named counter, aggregated over all cases and shards
  inline void count(char const *name, int64_t by = 1) {
    auto *s = sh();
    if (!s) return;
    int n = s->nctr.load();
    for (int i = 0; i < n; i++)
      if (!std::strncmp(s->ctr_name[i], name, NAMELEN - 1)) {
        s->ctr[i].fetch_add(by);
        return;
      }
    while (s->lock.exchange(1)) {}
    n = s->nctr.load();
    int i;
    for (i = 0; i < n; i++)
      if (!std::strncmp(s->ctr_name[i], name, NAMELEN - 1)) break;
    if (i == n && n < MAXCTR) {
      std::strncpy(s->ctr_name[n], name, NAMELEN - 1);
      s->nctr.store(n + 1);
    }
    s->lock.store(0);
    if (i < MAXCTR) s->ctr[i].fetch_add(by);
  }
  // record that a non-trivial case/behaviour with this signature was seen
  inline void seen(uint64_t sig) {
    if (hash_fd() >= 0) {
      if (::write(hash_fd(), &sig, 8) < 0) {}
    }
  }
  inline void seen(std::string const &sig) { seen(fnv(sig)); }

  inline void violation(std::string const &key, std::string const &msg) {
    auto *s = sh();
    if (s && s->viols.fetch_add(1) > 400) return;
    std::ostringstream os;
    os << "{\"t\":\"viol\",\"key\":\"" << jesc(key) << "\",\"case\":" << (s ? s->current.load() : -1) << ",\"msg\":\"" << jesc(msg.substr(0, 4000)) << "\"}";
    emit(os.str());
  }
  inline void sample(std::string const &txt, int max = 3) {
    auto *s = sh();
    if (s && s->samples.fetch_add(1) >= max) return;
    emit("{\"t\":\"sample\",\"text\":\"" + jesc(txt.substr(0, 1500)) + "\"}");
  }
  struct Msg {
    std::ostringstream os;
    template<class T>
    Msg &operator<<(T const &v) {
      os << v;
      return *this;
    }
    operator std::string() const { return os.str(); }
  };
#define VH_MSG(x) ((std::string) (vh::Msg() << x))
#define VH_CHECK(cond, key, x)                    \
  do {                                            \
    vh::count("checks");                          \
    if (!(cond)) vh::violation((key), VH_MSG(x)); \
  } while (0)

  inline uint64_t case_seed(int64_t c) {
    uint64_t s = opt().seed * 0x9e3779b97f4a7c15ull + fnv(opt().prop + "/" + opt().mode);
    splitmix(s);
    s ^= (uint64_t) c * 0xd1342543de82ef95ull;
    splitmix(s);
    return s;
  }

  inline double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
  }

  struct RunOpts {
    int batch       = 1;   // cases per forked child
    int cpu_s       = 20;  // CPU seconds allowed per case (per batch: + batch/…)
    double wall_s   = 60;  // wall watchdog per case; a firing is retried once, alone
    bool quiet_out  = true; // stdout/stderr of the child to /dev/null (sanitizer reports use log_path)
  };

  inline std::string slurp(std::string const &p, size_t max = 20000) {
    std::ifstream f(p, std::ios::binary);
    std::ostringstream os;
    os << f.rdbuf();
    auto s = os.str();
    return s.size() > max ? s.substr(0, max) : s;
  }

  // one child executes cases [a,b); returns "" if fine, else failure kind
  inline std::string child_range(int64_t a, int64_t b, RunOpts const &ro, std::function<void(int64_t)> const &fn, double wall, bool collect) {
    auto *s = sh();
    s->current.store(a);
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      _exit(3);
    }
    if (pid == 0) {
      setpgid(0, 0);
      rlimit rl{(rlim_t) (ro.cpu_s + (b - a) / 50), (rlim_t) (ro.cpu_s + (b - a) / 50 + 5)};
      setrlimit(RLIMIT_CPU, &rl);
      rlimit core{0, 0};
      setrlimit(RLIMIT_CORE, &core);
      rlimit fs{1 << 30, 1 << 30};
      setrlimit(RLIMIT_FSIZE, &fs);
      if (ro.quiet_out && !opt().verbose) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        dup2(fd, 2);
        if (fd > 2) close(fd);
      }
      for (int64_t c = a; c < b; c++) {
        s->current.store(c);
        fn(c);
        s->done.fetch_add(1);
      }
#ifdef VH_COVERAGE // development aid: which lines of the headers do the workloads reach?
      __llvm_profile_write_file();
#endif
      _exit(0);
    }
    setpgid(pid, pid);
    double t0 = now(), tcase = t0;
    int64_t last = a;
    int st     = 0;
    useconds_t nap = 200;
    for (;;) {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      double t = now();
      int64_t cur = s->current.load();
      if (cur != last) last = cur, tcase = t;
      if (t - tcase > wall) {
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        return "hang:wall";
      }
      usleep(nap);
      if (nap < 5000) nap = nap * 5 / 4;
    }
    kill(-pid, SIGKILL); // anything left of the case's process group
    std::string log;
    if (collect || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      std::string p = opt().scratch + "/san." + std::to_string(pid);
      log           = slurp(p);
      unlink(p.c_str());
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return log.empty() ? "" : "report:" + log;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && log.empty()))) return "hang:cpu";
    std::ostringstream os;
    if (WIFEXITED(st))
      os << "exit=" << WEXITSTATUS(st);
    else
      os << "signal=" << WTERMSIG(st);
    return "crash:" + os.str() + "\n" + log;
  }

  inline void report_crash(int64_t c, std::string const &what) {
    sh()->current.store(c);
    auto *s = sh();
    s->viols.fetch_add(1);
    std::ostringstream os;
    os << "{\"t\":\"crash\",\"case\":" << c << ",\"what\":\"" << jesc(what.substr(0, 12000)) << "\"}";
    emit(os.str());
  }

  // a confirmed hang in one shard ends the others at their next batch: each costs minutes, and one is enough
  inline bool stop_asked() {
    char const *p = getenv("VH_STOP");
    return p && access(p, F_OK) == 0;
  }
  inline void ask_stop() {
    if (char const *p = getenv("VH_STOP")) {
      int fd = open(p, O_WRONLY | O_CREAT, 0666);
      if (fd >= 0) close(fd);
    }
  }
  // a soft limit on the whole check: on a slow machine it explores less instead of not finishing
  inline bool past_deadline() {
    char const *p = getenv("VH_DEADLINE");
    return p && time(nullptr) > atoll(p);
  }

  inline int supervise(RunOpts const &ro, std::function<void(int64_t)> const &fn) {
    int crashes = 0;
    int64_t c   = opt().from;
    while (c < opt().to) {
      if (stop_asked()) {
        emit("{\"t\":\"note\",\"text\":\"another shard confirmed a hang, shard stopped\"}");
        break;
      }
      if (c > opt().from && past_deadline()) {
        emit("{\"t\":\"note\",\"text\":\"time limit reached, shard stopped early\"}");
        break;
      }
      int64_t e = std::min<int64_t>(opt().to, c + ro.batch);
      auto r    = child_range(c, e, ro, fn, ro.wall_s, true);
      if (r.empty()) {
        c = e;
        continue;
      }
      int64_t at = sh()->current.load();
      if (r.rfind("hang:", 0) == 0) {
        // re-run that case alone, with three times the time, before calling it a hang
        if (stop_asked()) break;
        RunOpts alone = ro;
        alone.cpu_s *= 3;
        auto r2 = child_range(at, at + 1, alone, fn, ro.wall_s * 3, true);
        if (r2.empty()) {
          count("watchdog_retries_ok");
          c = at + 1;
          continue;
        }
        r = r2;
      }
      report_crash(at, r);
      if (r.rfind("hang:", 0) == 0) {
        ask_stop();
        crashes = 12;
      } else
        crashes++;
      if (crashes >= 12) {
        emit("{\"t\":\"note\",\"text\":\"too many crashes, shard stopped\"}");
        break;
      }
      c = at + 1;
    }
    auto *s = sh();
    for (int i = 0; i < s->nctr.load(); i++) {
      std::ostringstream os;
      os << "{\"t\":\"stat\",\"name\":\"" << s->ctr_name[i] << "\",\"n\":" << s->ctr[i].load() << "}";
      emit(os.str());
    }
    {
      std::ostringstream os;
      os << "{\"t\":\"done\",\"cases\":" << s->done.load() << "}";
      emit(os.str());
    }
    return 0;
  }

  inline void init(int argc, char **argv) {
    auto &o = opt();
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      auto nx       = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--prop") o.prop = nx();
      else if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10);
      else if (a == "--from") o.from = atoll(nx().c_str());
      else if (a == "--to") o.to = atoll(nx().c_str());
      else if (a == "--tier") o.tier = nx();
      else if (a == "--out") o.out = nx();
      else if (a == "--scratch") o.scratch = nx();
      else if (a == "--mode") o.mode = nx();
      else if (a == "--unpriv") o.unpriv = true;
      else if (a == "--verbose") o.verbose = true;
    }
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh()    = new (p) Shared{};
    if (!o.out.empty()) {
      out_fd()  = open(o.out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
      hash_fd() = open((o.out + ".sig").c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    } else
      out_fd() = 1;
    if (o.verbose) {
      out_fd() = dup(2);
      fcntl(out_fd(), F_SETFD, FD_CLOEXEC);
    }
    signal(SIGPIPE, SIG_IGN);
    signal(SIGTTOU, SIG_IGN);
  }

  inline int drive(int argc, char **argv, RunOpts const &ro, std::function<void(int64_t, Rng &)> const &fn) {
    init(argc, argv);
    // whoever started this may ignore or block signals (nohup does): the processes run from here must not inherit that
    for (int sig = 1; sig < 32; sig++) {
      struct sigaction sa {};
      if (sigaction(sig, nullptr, &sa) == 0 && !(sa.sa_flags & SA_SIGINFO) && sa.sa_handler == SIG_IGN) signal(sig, SIG_DFL);
    }
    sigset_t none;
    sigemptyset(&none);
    sigprocmask(SIG_SETMASK, &none, nullptr);
    return supervise(ro, [&](int64_t c) {
      Rng r(case_seed(c));
      fn(c, r);
    });
  }

  // captures everything written to fd 1 and 2 while alive
  struct Capture {
    int f1 = -1, f2 = -1, s1 = -1, s2 = -1;
    Capture() {
      fflush(stdout);
      fflush(stderr);
      f1 = memfd_create("o", MFD_CLOEXEC);
      f2 = memfd_create("e", MFD_CLOEXEC);
      s1 = fcntl(1, F_DUPFD_CLOEXEC, 10);
      s2 = fcntl(2, F_DUPFD_CLOEXEC, 10);
      dup2(f1, 1);
      dup2(f2, 2);
    }
    static std::string rd(int fd) {
      std::string r;
      char b[8192];
      lseek(fd, 0, SEEK_SET);
      ssize_t n;
      while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t) n);
      return r;
    }
    std::string out, err;
    void stop() {
      if (f1 < 0) return;
      fflush(stdout);
      fflush(stderr);
      dup2(s1, 1);
      dup2(s2, 2);
      out = rd(f1);
      err = rd(f2);
      close(f1);
      close(f2);
      close(s1);
      close(s2);
      f1 = -1;
    }
    ~Capture() { stop(); }
  };
} // namespace vh
