// C23 memory-mapped files and file helpers, C24 process execution, C25 stream redirection and savers.
#include "cmdr-config-base.hh"
#include "cmdr-version.hh"

#include "cmdr11/cmdr_ios.hh"
#include "cmdr11/cmdr_mmap.hh"
#include "cmdr11/cmdr_os_io_redirect.hh"
#include "cmdr11/cmdr_path.hh"
#include "cmdr11/cmdr_process.hh"

#include "common.hpp"
#include "perturb.hpp"
#include <dirent.h>
#include <memory>
#include <thread>

using vh::Rng;
namespace fs = std::filesystem;
namespace cm = cmdr::mmap;

static std::string bytes(Rng &r, size_t n) {
  std::string s(n, 0);
  for (auto &c: s) c = (char) r.below(256);
  return s;
}
static std::string text(Rng &r, size_t n) {
  std::string s(n, 0);
  for (auto &c: s) c = r.chance(5) ? '\n' : (char) ('!' + r.below(94));
  return s;
}
static void put(std::string const &p, std::string const &s) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) break;
    o += (size_t) n;
  }
  close(fd);
}
static std::string get(std::string const &p) {
  std::string s;
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return "<cannot open " + p + ">";
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t) n);
  close(fd);
  return s;
}
static int nfds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static int nmaps(std::string const &what) {
  std::string s = get("/proc/self/maps");
  int n         = 0;
  for (size_t p = 0; (p = s.find(what, p)) != std::string::npos; p += what.size()) n++;
  return n;
}
static std::vector<std::string> files_in(std::string const &dir) {
  std::vector<std::string> v;
  for (auto const &e: fs::recursive_directory_iterator(dir))
    if (!e.is_directory()) v.push_back(e.path().string());
  std::sort(v.begin(), v.end());
  return v;
}
static std::string g_root; // a directory of this case alone, inside the shard's scratch directory
static int g_dirno;
static void enter_case() {
  static std::string base = fs::current_path().string();
  g_root                  = base + "/k" + std::to_string(getpid()) + "_" + std::to_string(g_dirno++);
  fs::create_directories(g_root);
  if (chdir(g_root.c_str())) {}
  setenv("TMPDIR", g_root.c_str(), 1);
}
static void leave_case() {
  if (chdir("/")) {}
  std::error_code ec;
  // g_root is always a directory made by enter_case()
  if (g_root.find("/k") != std::string::npos) fs::remove_all(g_root, ec);
}

// ------------------------------------------------------------------ C23
static size_t size_pick(Rng &r) {
  switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return 4096;
    case 2: return 4095 + r.below(3);
    case 3: return 1 + r.below(300);
    case 4: return 8191 + r.below(3);
    default: return 1 + r.below(70000);
  }
}
template<class L>
static void mm_copies(Rng &r, L &m, std::string const &content, std::string const &S) {
  if constexpr (std::is_copy_constructible_v<L>) {
    auto good = [&](L &x) { return x.is_open() && x.size() == content.size() && !memcmp(x.data(), content.data(), content.size()); };
    if (r.chance(60)) {
      L c(m);
      VH_CHECK(good(c) && good(m), "C23:copy", S << ": copy or original unusable after copying");
    }
    VH_CHECK(good(m), "C23:copy", S << ": original unusable after its copy is gone");
  }
  (void) r, (void) m, (void) content, (void) S;
}
static void c23_lib(Rng &r) {
  std::string p = g_root + "/f.bin";
  std::string content = bytes(r, size_pick(r));
  put(p, content);
  bool w = r.chance(50), s = r.chance(50);
  std::ostringstream sh;
  sh << "mmaplib size=" << content.size() << (w ? " writeable" : "") << (s ? " shared" : "");
  std::string S = sh.str();
  int fd0       = nfds();
  {
    auto m = std::make_unique<cm::detail::mmaplib>(p.c_str(), w, s);
    if (content.empty()) {
      VH_CHECK(!m->is_open() && m->size() == 0, "C23:empty", S << ": empty file claims to be mapped, size " << m->size());
    } else {
      VH_CHECK(m->is_open(), "C23:open", S << ": not open");
      if (!m->is_open()) return;
      VH_CHECK(m->size() == content.size(), "C23:size", S << ": size() " << m->size());
      cm::detail::mmaplib const &cref = *m;
      VH_CHECK(!memcmp(cref.data(), content.data(), content.size()), "C23:content", S << ": bytes differ");
      mm_copies(r, *m, content, S);
      std::string now = content;
      if (w) {
        for (int i = 0; i < 5; i++) {
          size_t at      = r.below(content.size());
          now[at]        = (char) r.below(256);
          m->data()[at] = now[at];
        }
        std::string onfile = get(p);
        VH_CHECK(onfile == (s ? now : content), "C23:write", S << ": file " << (s ? "does not show" : "shows") << " what was written to the mapping");
        VH_CHECK(!memcmp(m->data(), now.data(), now.size()), "C23:write", S << ": mapping lost a write");
      }
      if (r.chance(50)) {
        // moving hands the mapping over
        cm::detail::mmaplib other(std::move(*m));
        VH_CHECK(other.is_open() && other.size() == now.size() && !memcmp(other.data(), now.data(), now.size()), "C23:move", S << ": moved-to mapping unusable");
        VH_CHECK(!m->is_open() && m->size() == 0, "C23:moved-from", S << ": the object moved from still claims a mapping of " << m->size() << " bytes");
        if (r.chance(50)) m.reset();
        VH_CHECK(other.is_open() && !memcmp(other.data(), now.data(), now.size()), "C23:move", S << ": mapping gone with the moved-from object");
        if (r.chance(50)) {
          std::string p3 = g_root + "/h.bin";
          put(p3, "0123456789");
          cm::detail::mmaplib third(p3.c_str(), false, false);
          third = std::move(other);
          VH_CHECK(third.is_open() && third.size() == now.size() && !memcmp(third.data(), now.data(), now.size()), "C23:move", S << ": move-assigned mapping unusable");
          VH_CHECK(nmaps("/h.bin") == 0, "C23:leak-map", S << ": the mapping replaced by an assignment is still there");
        }
      } else if (r.chance(40)) {
        // connecting again replaces the mapping
        std::string p2 = g_root + "/g.bin", c2 = bytes(r, 1 + r.below(5000));
        put(p2, c2);
        m->connect(w, s, p2.c_str());
        VH_CHECK(m->is_open() && m->size() == c2.size() && !memcmp(m->data(), c2.data(), c2.size()), "C23:reconnect", S << ": second connect shows something else");
        VH_CHECK(nmaps("/f.bin") == 0, "C23:leak-map", S << ": first mapping still there after connecting again");
      }
      if (m && r.chance(50)) {
        m->close();
        VH_CHECK(!m->is_open() && m->size() == 0, "C23:close", S << ": still open after close()");
        if (r.chance(50)) m->close();
      }
    }
  }
  VH_CHECK(nfds() == fd0, "C23:leak-fd", S << ": " << nfds() - fd0 << " descriptors left open");
  VH_CHECK(nmaps(g_root) == 0, "C23:leak-map", S << ": " << nmaps(g_root) << " mappings left");
  {
    // failures are reported, not fatal
    cm::detail::mmaplib m((g_root + "/none.bin").c_str(), w, s);
    VH_CHECK(!m.is_open() && m.size() == 0, "C23:missing", S << ": missing file claims to be mapped");
    cm::detail::mmaplib d(g_root.c_str(), false, s);
    VH_CHECK(!d.is_open() && d.size() == 0, "C23:directory", S << ": directory claims to be mapped");
    cm::detail::mmaplib n;
    VH_CHECK(!n.is_open() && n.size() == 0, "C23:fresh", S << ": fresh object claims to be mapped");
    // an unreadable mode: write access to a file opened read-only
    int fd = open(p.c_str(), O_RDONLY);
    cm::mmap_um<true, true> um(fd);
    VH_CHECK(content.empty() || !um.is_open(), "C23:mode", S << ": shared writeable mapping of a read-only descriptor claims to be open");
  }
  VH_CHECK(nfds() == fd0, "C23:leak-fd", S << ": " << nfds() - fd0 << " descriptors left open after failures");
  if (!content.empty()) {
    int fd = open(p.c_str(), O_RDWR);
    std::string cur = get(p);
    {
      cm::mmap_um<false, true> um(fd);
      VH_CHECK(um.is_open() && um.size() == cur.size() && um.length() == cur.size() && !memcmp(um.data(), cur.data(), cur.size()), "C23:um", S << ": mmap_um shows something else");
    }
    VH_CHECK(fcntl(fd, F_GETFD) == -1 || nfds() == fd0, "C23:leak-fd", S << ": mmap_um did not close its descriptor");
    if (nfds() != fd0) close(fd);
  }
  vh::seen(S);
  vh::sample(S);
  vh::count("c23_lib");
}
template<bool W, bool SH>
static void tmp_one(Rng &r, std::vector<std::unique_ptr<cm::mmap<W, SH>>> &v, std::vector<std::string> &model, std::string const &S) {
  size_t n = 1 + r.below(20000);
  v.push_back(std::make_unique<cm::mmap<W, SH>>(n));
  auto &m = *v.back();
  VH_CHECK(m.is_open(), "C23:tmp-open", S << ": mmap(" << n << ") not open");
  if (!m.is_open()) {
    v.pop_back();
    return;
  }
  VH_CHECK(m.size() == n && m.length() == n, "C23:tmp-size", S << ": mmap(" << n << ") has size " << m.size());
  VH_CHECK(std::string(m.data(), m.size()) == std::string(n, '\0'), "C23:tmp-zero", S << ": mmap(" << n << ") not zeroed");
  model.push_back(std::string(n, '\0'));
}
template<bool W, bool SH>
static void c23_tmp(Rng &r, char const *name) {
  std::string S = name;
  int fd0       = nfds();
  // files of somebody else in the temporary directory, with the names this class would like
  std::vector<std::pair<std::string, std::string>> foreign;
  if (r.chance(50)) {
    int probe = r.range(0, 3);
    auto next = cmdr::path::tmpname_autoincr().filename().string(); // "_00007": the ones after it come next
    int id    = atoi(next.c_str() + 1);
    for (int i = 0; i <= probe; i++) {
      char b[32];
      snprintf(b, sizeof b, "_%05d", id + 1 + (int) r.below(4));
      foreign.emplace_back(g_root + "/" + b, text(r, 1 + r.below(50)));
      put(foreign.back().first, foreign.back().second);
    }
    std::map<std::string, std::string> last;
    for (auto &[p, c]: foreign) last[p] = c;
    foreign.assign(last.begin(), last.end());
    S += " with foreign files";
  }
  {
    std::vector<std::unique_ptr<cm::mmap<W, SH>>> v;
    std::vector<std::string> model;
    int ops = r.range(1, 12);
    for (int k = 0; k < ops; k++) {
      if (v.empty() || r.chance(50)) tmp_one<W, SH>(r, v, model, S);
      else if (r.chance(30)) {
        size_t i = r.below(v.size());
        auto p   = v[i]->underlying_filename().string();
        VH_CHECK(fs::exists(p), "C23:tmp-file", S << ": backing file missing");
        v.erase(v.begin() + (long) i);
        model.erase(model.begin() + (long) i);
        VH_CHECK(!fs::exists(p), "C23:tmp-file", S << ": backing file left behind");
      } else if (W) {
        size_t i     = r.below(v.size());
        size_t at    = r.below(model[i].size());
        model[i][at] = (char) r.below(256);
        v[i]->data()[at] = model[i][at];
      }
      std::set<std::string> names;
      for (size_t i = 0; i < v.size(); i++) {
        cm::mmap<W, SH> const &cm2 = *v[i];
        VH_CHECK(cm2.is_open() && cm2.size() == model[i].size() && !memcmp(cm2.data(), model[i].data(), model[i].size()), "C23:tmp-content", S << ": mapping " << i << " of " << v.size() << " changed by others");
        names.insert(cm2.underlying_filename().string());
      }
      VH_CHECK(names.size() == v.size(), "C23:tmp-shared", S << ": two mappings share one backing file");
    }
    if constexpr (std::is_copy_constructible_v<cm::mmap<W, SH>>)
      if (!v.empty()) {
        {
          cm::mmap<W, SH> c(*v[0]);
          VH_CHECK(c.is_open() && !memcmp(c.data(), model[0].data(), model[0].size()), "C23:tmp-copy", S << ": copy unusable");
        }
        VH_CHECK(v[0]->is_open() && !memcmp(v[0]->data(), model[0].data(), model[0].size()), "C23:tmp-copy", S << ": original unusable after its copy is gone");
        VH_CHECK(fs::exists(v[0]->underlying_filename()), "C23:tmp-copy", S << ": backing file gone with a copy");
      }
  }
  VH_CHECK(nfds() == fd0, "C23:leak-fd", S << ": " << nfds() - fd0 << " descriptors left open");
  VH_CHECK(nmaps(g_root) == 0, "C23:leak-map", S << ": mappings left");
  for (auto &[p, c]: foreign) {
    VH_CHECK(get(p) == c, "C23:tmp-foreign", S << ": a file which was there before got overwritten or deleted: " << p);
    unlink(p.c_str());
  }
  VH_CHECK(files_in(g_root).empty(), "C23:tmp-file", S << ": files left behind: " << vh::showv(files_in(g_root)));
  vh::count("c23_tmp");
}
static void c23_two(Rng &r) {
  // two processes (and two threads of each) map scratch files at the same time
  int pipefd[2];
  if (pipe(pipefd)) return;
  std::vector<pid_t> kids;
  int n = r.range(2, 3);
  for (int k = 0; k < n; k++) {
    pid_t p = fork();
    if (p == 0) {
      int bad = 0;
      for (int i = 0; i < 4; i++) {
        size_t sz = 1 + (size_t) (k * 1000 + i * 777) % 9000;
        cm::mmap<true, true> m(sz);
        if (!m.is_open() || m.size() != sz) bad |= 1;
        else {
          memset(m.data(), 'A' + k, sz);
          vp::nap(200);
          for (size_t j = 0; j < sz; j++)
            if (m.data()[j] != 'A' + k) bad |= 2;
        }
      }
      if (write(pipefd[1], &bad, sizeof bad) < 0) {}
      _exit(0);
    }
    kids.push_back(p);
  }
  close(pipefd[1]);
  int bad, got = 0;
  while (read(pipefd[0], &bad, sizeof bad) == (ssize_t) sizeof bad) {
    got++;
    VH_CHECK(!(bad & 1), "C23:tmp-process", "scratch mapping not open or of another size while another process has one");
    VH_CHECK(!(bad & 2), "C23:tmp-process", "scratch mapping shared with another process");
  }
  close(pipefd[0]);
  for (auto p: kids) {
    int st;
    waitpid(p, &st, 0);
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "C23:tmp-process", "a process died using its scratch mapping, status " << st);
  }
  VH_CHECK(got == n, "C23:tmp-process", "only " << got << " of " << n << " processes finished");
  VH_CHECK(files_in(g_root).empty(), "C23:tmp-file", "files left behind: " << vh::showv(files_in(g_root)));
}
static std::string rname(Rng &r) {
  static char const cs[] = "abcXYZ019_- .";
  std::string s;
  size_t n = 1 + r.below(8);
  for (size_t i = 0; i < n; i++) s += cs[r.below(sizeof cs - 1)];
  if (s.find_first_not_of(". ") == std::string::npos) s = "q" + s;
  return s;
}
static void c23_files(Rng &r) {
  namespace P = cmdr::path;
  namespace I = cmdr::io;
  int fd0 = nfds();
  {
    // sparse files
    std::string p = g_root + "/s.bin";
    if (r.chance(50)) put(p, bytes(r, r.below(3000)));
    size_t n = r.chance(10) ? 0 : 1 + r.below(300000);
    bool ok  = I::create_sparse_file(p, n);
    VH_CHECK(ok, "C23:sparse", "create_sparse_file(" << n << ") false");
    VH_CHECK(get(p) == std::string(n, '\0'), "C23:sparse", "create_sparse_file(" << n << ") made " << get(p).size() << " bytes or not all zero");
    if (r.chance(60) && n) {
      size_t at = r.below(n), len = r.below(n - at) + 1;
      int fd    = open(p.c_str(), O_WRONLY);
      std::string b = bytes(r, len);
      if (pwrite(fd, b.data(), len, (off_t) at) < 0) {}
      fsync(fd);
      close(fd);
    }
    struct stat st {};
    ::stat(p.c_str(), &st);
    VH_CHECK(P::is_sparse_file(p) == (st.st_blocks * 512 < st.st_size), "C23:is-sparse", "is_sparse_file() " << P::is_sparse_file(p) << " for " << st.st_size << " bytes on " << st.st_blocks << " blocks of 512");
    auto s2 = P::stat(p);
    VH_CHECK(s2.st_size == st.st_size && s2.st_ino == st.st_ino, "C23:stat", "path::stat() differs from the system's");
    VH_CHECK(!P::is_sparse_file(g_root + "/nothing"), "C23:is-sparse", "a missing file is sparse");
    VH_CHECK((r.chance(50) ? I::delete_file(p) : I::delete_file(p.c_str())) && !fs::exists(p), "C23:delete", "delete_file() failed");
    if (r.chance(4)) { // almost full: one hole in four megabytes
      std::string full((4 << 20) - 4096, 'f');
      int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (pwrite(fd, full.data(), full.size(), 4096) < 0) {}
      fsync(fd);
      close(fd);
      ::stat(p.c_str(), &st);
      VH_CHECK(P::is_sparse_file(p) == (st.st_blocks * 512 < st.st_size), "C23:is-sparse", "is_sparse_file() " << P::is_sparse_file(p) << " for " << st.st_size << " bytes on " << st.st_blocks << " blocks of 512");
      vh::count("almost_full");
      ::unlink(p.c_str());
    }
    VH_CHECK(!I::create_sparse_file(g_root + "/no/such/dir/s.bin", n), "C23:sparse-fails", "create_sparse_file() claims to have made a file in a missing directory");
    VH_CHECK(!I::delete_file(p) && !I::delete_file(p.c_str()), "C23:delete", "deleting a missing file succeeded");
  }
  {
    std::string p = g_root + "/c.bin", c = bytes(r, size_pick(r));
    auto ofs = I::create_file(p);
    ofs << c;
    I::close_file(ofs);
    VH_CHECK(get(p) == c, "C23:create", "create_file(): file holds something else");
    auto ifs = I::open_file(p);
    VH_CHECK(I::read_file_content(ifs) == c, "C23:read", "read_file_content() differs for " << c.size() << " bytes");
    I::close_file(ifs);
    VH_CHECK(!P::ensure_file(p) && get(p) == c, "C23:ensure", "ensure_file() touched an existing file");
    std::string q = g_root + "/" + rname(r) + "/deep/" + rname(r);
    VH_CHECK(P::ensure_directory(q) && fs::is_directory(q) && !P::ensure_directory(q), "C23:ensure", "ensure_directory(" << q << ")");
    std::string f = q + "/new";
    VH_CHECK(!P::file_exists(f) && P::ensure_file(f) && P::file_exists(f) && P::file_exists(fs::path(f)) && get(f).empty(), "C23:ensure", "ensure_file() did not make an empty file");
    auto w = I::open_file_for_write(p);
    w << "x";
    I::close_file(std::move(w));
    VH_CHECK(get(p) == "x", "C23:create", "open_file_for_write() left " << get(p).size() << " bytes");
  }
  {
    std::string d = rname(r), b = "n" + rname(r) + "z", e = r.chance(70) ? ".e" + std::to_string(r.below(100)) : "";
    while (b.find('.') != std::string::npos) b.erase(b.find('.'), 1);
    fs::path p = "/r/" + d + "/" + b + e;
    VH_CHECK(P::dirname(p) == "/r/" + d && P::basename(p) == b + e && P::extname(p) == e && P::basename_without_ext(p) == b, "C23:path-parts", "parts of " << p.string());
    VH_CHECK(P::join(std::string("/r"), d, b + e) == p, "C23:join", "join gave " << P::join(std::string("/r"), d, b + e).string());
    fs::path j = "/r";
    VH_CHECK(P::join(j, d) == "/r/" + d, "C23:join", "join(path&) gave " << j.string());
    VH_CHECK(P::merge("/r/" + d, b) == "/r/" + d + "/" + b, "C23:join", "merge");
    VH_CHECK(P::to_filename_h(p) == p.string() && std::string(P::to_filename(p)) == p.string(), "C23:join", "to_filename");
    std::string exe(4096, 0);
    ssize_t n = readlink("/proc/self/exe", exe.data(), exe.size());
    exe.resize(n > 0 ? (size_t) n : 0);
    VH_CHECK(P::get_executable_path() == exe && P::get_executable_dir() == exe.substr(0, exe.rfind('/')) && P::executable_name() == exe.substr(exe.rfind('/') + 1), "C23:exe", "executable path " << P::get_executable_path().string());
    VH_CHECK(P::get_cwd() == g_root && P::get_pwd() == g_root && P::get_current_dir() == g_root, "C23:cwd", "current directory");
    VH_CHECK(P::tmpdir() == g_root, "C23:tmpname", "tmpdir " << P::tmpdir().string());
    auto t1 = P::tmpname(), t2 = P::tmpname("sub/x.y");
    VH_CHECK(t1 == g_root + "/1.bin" && t2 == g_root + "/sub/x.y" && fs::is_directory(g_root + "/sub"), "C23:tmpname", t1.string() << ' ' << t2.string());
  }
  {
    auto deep = cmdr::path::tmpname_autoincr("dn/sub/n%d.x");
    VH_CHECK(deep.string().rfind(g_root + "/dn/sub/n", 0) == 0 && fs::is_directory(g_root + "/dn/sub"), "C23:autoincr", "name " << deep.string() << " has no directory to live in");
    // names are distinct, also across threads
    int n = r.range(1, 4), per = r.range(1, 8);
    std::vector<std::vector<std::string>> got((size_t) n);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
      for (int i = 0; i < per; i++) got[(size_t) t].push_back(cmdr::path::tmpname_autoincr(i & 1 ? "pre_%d_post" : "pre_%d_post").string());
    });
    for (auto &t: ts) t.join();
    std::set<std::string> all;
    for (auto &v: got)
      for (auto &s: v) {
        all.insert(s);
        VH_CHECK(s.rfind(g_root + "/pre_", 0) == 0 && s.substr(s.size() - 5) == "_post", "C23:autoincr", "name " << s << " does not follow its template");
      }
    VH_CHECK(all.size() == (size_t) (n * per), "C23:autoincr", n * per << " names, only " << all.size() << " distinct");
  }
  VH_CHECK(nfds() == fd0, "C23:leak-fd", "file helpers left " << nfds() - fd0 << " descriptors open");
  for (auto const &e: fs::directory_iterator(g_root)) fs::remove_all(e.path());
}
static void c23(Rng &r) {
  c23_lib(r);
  for (auto const &e: fs::directory_iterator(g_root)) fs::remove_all(e.path());
  switch (r.below(4)) {
    case 0: c23_tmp<true, true>(r, "mmap<w,s>"); break;
    case 1: c23_tmp<true, false>(r, "mmap<w>"); break;
    case 2: c23_tmp<false, true>(r, "mmap<s>"); break;
    default: c23_tmp<false, false>(r, "mmap<>");
  }
  c23_files(r);
  if (r.chance(25)) c23_two(r);
}

// ------------------------------------------------------------------ C24
struct Job {
  std::string cmd, out, err;
  int rc = 0;
  std::string shape;
};
static Job mk_job(Rng &r, int tag) {
  Job j;
  std::ostringstream sh;
  std::string f = g_root + "/o" + std::to_string(tag), g = g_root + "/e" + std::to_string(tag);
  auto amount = [&](int pct0) -> size_t { return r.chance(pct0) ? 0 : r.chance(70) ? r.below(600) : r.below(150000); };
  // 1-4 statements, each writing something somewhere
  int n = r.range(0, 4);
  for (int k = 0; k < n; k++) {
    std::string a = r.chance(30) ? bytes(r, amount(20)) : text(r, amount(20));
    std::string p = f + "_" + std::to_string(k);
    bool err      = r.chance(45);
    put(p, a);
    std::string c;
    switch (r.below(6)) {
      case 0: c = "cat '" + p + "'" + (err ? " >&2" : ""); break;
      case 1: c = "( cat \"" + p + "\" " + (err ? ">&2" : "") + " )"; break;
      case 2: c = std::string("cat < ") + p + " | cat" + (err ? " >&2" : ""); break;
      case 3: c = "if true; then cat " + p + (err ? " 1>&2" : "") + "; fi"; break;
      case 4: c = "sh -c 'cat " + p + (err ? " >&2" : "") + "'"; break;
      default:
        c = "( cat " + p + (err ? " >&2" : "") + " ) & wait"; // ends before the next statement
    }
    j.cmd += c;
    (err ? j.err : j.out) += a;
    sh << (err ? "e" : "o") << (a.size() > 600 ? "L" : a.empty() ? "0" : "s");
    j.cmd += r.chance(70) ? "; " : "\n";
  }
  if (r.chance(35)) {
    // a long command line
    size_t len = r.chance(60) ? 400 + r.below(400) : r.below(60000);
    std::string pad(len, 'p');
    for (auto &c: pad)
      if (r.chance(8)) c = ' ';
    j.cmd = ": " + pad + (r.chance(50) ? "\n" : " ; ") + j.cmd;
    sh << " long" << len / 300;
  }
  switch (r.below(6)) {
    case 0: j.rc = 0; break;
    case 1: j.rc = 1, j.cmd += "false"; break;
    case 2: j.rc = (int) r.below(256), j.cmd += "exit " + std::to_string(j.rc); break;
    case 3: j.rc = (int) r.below(256), j.cmd += "sh -c 'exit " + std::to_string(j.rc) + "'"; break;
    case 4: j.cmd += "true # a comment at the end"; break;
    default: {
      static int const sigs[] = {9, 15, 1, 10};
      int s                   = sigs[r.below(4)];
      if (r.chance(40)) j.rc = 128 + s, j.cmd += "kill -" + std::to_string(s) + " $$; sleep 5", sh << " sig";
      else
        j.cmd += "echo 'don'\\''t; say \"x\" $HOME_NOT_SET 2>&1'", j.out += "don't; say \"x\" $HOME_NOT_SET 2>&1\n";
    }
  }
  if (n == 0 && r.chance(20)) j.cmd = "", j.rc = 0, j.out = "", j.err = "";
  sh << " rc" << j.rc;
  j.shape = sh.str();
  return j;
}
static std::string brief(std::string const &s) { return std::to_string(s.size()) + " bytes " + vh::show(s.substr(0, 60)); }
static void run_job(Job const &j, int how) {
  cmdr::process::exec ex(j.cmd.c_str());
  std::string out, err;
  std::ostringstream o1, o2;
  if (how == 0) {
    o1 << ex;
    o2 << ex.stderr_stream();
    out = o1.str(), err = o2.str();
    o1 << "more";
    o2 << "more";
    VH_CHECK(o1.good() && o2.good() && o1.str() == out + "more" && o2.str() == err + "more", "C24:ostream", vh::show(j.cmd.substr(0, 200)) << ": the stream the output was printed to is unusable afterwards");
  } else {
    out.assign(std::istreambuf_iterator<char>(ex), {});
    err.assign(std::istreambuf_iterator<char>(ex.stderr_stream()), {});
  }
  VH_CHECK(out == j.out, "C24:stdout", vh::show(j.cmd.substr(0, 200)) << " (" << j.cmd.size() << " long): stdout " << brief(out) << ", wanted " << brief(j.out));
  VH_CHECK(err == j.err, "C24:stderr", vh::show(j.cmd.substr(0, 200)) << " (" << j.cmd.size() << " long): stderr " << brief(err) << ", wanted " << brief(j.err));
  VH_CHECK(ex.ret_code() == j.rc, "C24:status", vh::show(j.cmd.substr(0, 200)) << "..." << vh::show(j.cmd.size() > 40 ? j.cmd.substr(j.cmd.size() - 40) : "") << ": status " << ex.ret_code() << ", wanted " << j.rc);
  vh::count("c24_execs");
}
static void c24(Rng &r, bool conc) {
  std::string tmp = g_root + "/tmp";
  if (r.chance(25)) tmp += r.chance(50) ? " with blanks" : " it's; $odd";
  fs::create_directories(tmp);
  setenv("TMPDIR", tmp.c_str(), 1);
  int fd0 = nfds();
  int n   = conc ? r.range(2, 4) : 1, per = conc ? r.range(1, 3) : r.range(1, 2);
  std::vector<Job> jobs;
  std::vector<int> how;
  std::ostringstream sh;
  for (int i = 0; i < n * per; i++) {
    jobs.push_back(mk_job(r, i));
    how.push_back((int) r.below(2));
    sh << jobs.back().shape << how.back() << '|';
  }
  vh::sample(vh::show(jobs[0].cmd.substr(0, 300)));
  if (conc) {
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
      for (int k = 0; k < per; k++) run_job(jobs[(size_t) (t * per + k)], how[(size_t) (t * per + k)]);
    });
    for (auto &t: ts) t.join();
  } else {
    if (per == 2 && r.chance(50)) {
      // both alive at once
      cmdr::process::exec a(jobs[0].cmd.c_str());
      cmdr::process::exec b(jobs[1].cmd.c_str());
      std::string ea, eb, oa, ob;
      oa.assign(std::istreambuf_iterator<char>(a), {});
      ob.assign(std::istreambuf_iterator<char>(b), {});
      ea.assign(std::istreambuf_iterator<char>(a.stderr_stream()), {});
      eb.assign(std::istreambuf_iterator<char>(b.stderr_stream()), {});
      VH_CHECK(oa == jobs[0].out && ob == jobs[1].out, "C24:stdout", "two objects alive: stdout mixed up");
      VH_CHECK(ea == jobs[0].err && eb == jobs[1].err, "C24:stderr", "two objects alive: stderr of the first " << brief(ea) << ", wanted " << brief(jobs[0].err) << "; second " << brief(eb) << ", wanted " << brief(jobs[1].err));
      VH_CHECK(a.ret_code() == jobs[0].rc && b.ret_code() == jobs[1].rc, "C24:status", "two objects alive: " << a.ret_code() << ',' << b.ret_code());
    } else
      for (int k = 0; k < per; k++) run_job(jobs[(size_t) k], how[(size_t) k]);
  }
  VH_CHECK(nfds() == fd0, "C24:leak-fd", sh.str() << ": " << nfds() - fd0 << " descriptors left open");
  int st;
  VH_CHECK(waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD, "C24:zombie", sh.str() << ": child processes left");
  VH_CHECK(files_in(tmp).empty(), "C24:leak-file", sh.str() << ": files left in the temporary directory: " << vh::showv(files_in(tmp)));
  vh::seen(sh.str());
}

// ------------------------------------------------------------------ C25
struct Stop {};
// a string buffer which remembers what reached it
using Buf = std::stringbuf;
struct World25 {
  Rng &r;
  std::vector<std::unique_ptr<Buf>> bufs;
  std::vector<std::string> want; // per buffer
  std::ostream *dev[3] = {&std::cout, &std::cerr, &std::clog};
  int cur[3];   // buffer each device writes to now
  int in = -1;  // buffer std::cin reads from
  std::vector<size_t> rpos;
  std::ostringstream h;
  int serial = 0;
  explicit World25(Rng &q)
      : r(q) {}
  int fresh(std::string const &content = "") {
    bufs.emplace_back(new Buf(content, std::ios::in | std::ios::out));
    want.emplace_back();
    rpos.push_back(0);
    return (int) bufs.size() - 1;
  }
  void write() {
    int d = (int) r.below(3);
    std::string t = "<" + std::to_string(serial++) + ">";
    *dev[d] << t;
    if (r.chance(20)) dev[d]->flush();
    want[(size_t) cur[d]] += t;
    vh::count("c25_writes");
  }
  void read() {
    std::string w;
    if (!(std::cin >> w)) std::cin.clear();
    VH_CHECK(w == "w" + std::to_string(in) + "." + std::to_string(rpos[(size_t) in]), "C25:stdin", h.str() << ": read " << vh::show(w) << " while std::cin is fed by buffer " << in);
    rpos[(size_t) in]++;
  }
  std::string words(int id) {
    std::string s;
    for (int i = 0; i < 60; i++) s += "w" + std::to_string(id) + "." + std::to_string(i) + " ";
    return s;
  }
  void scope(int depth) {
    int steps = r.range(0, 4);
    for (int i = 0; i < steps; i++) {
      if (r.chance(50)) {
        write();
        if (r.chance(30)) read();
        continue;
      }
      if (depth >= 5) continue;
      int save[3] = {cur[0], cur[1], cur[2]}, sin = in;
      int kind    = (int) r.below(6);
      bool null   = r.chance(12);
      h << '(' << kind << (null ? "n" : "");
      bool thrown = false;
      try {
        int id = null ? -1 : fresh();
        std::streambuf *b = null ? nullptr : bufs[(size_t) id].get();
        auto body = [&] {
          scope(depth + 1);
          if (r.chance(15)) {
            h << '!';
            throw Stop{};
          }
        };
        switch (kind) {
          case 0: {
            cmdr::os::pipe_stdout_to p(b);
            if (b) cur[0] = id;
            body();
            break;
          }
          case 1: {
            cmdr::os::pipe_stderr_to p(b);
            if (b) cur[1] = id;
            body();
            break;
          }
          case 2: {
            cmdr::os::pipe_stdlog_to p(b);
            if (b) cur[2] = id;
            body();
            break;
          }
          case 3: {
            int ni = (int) bufs.size();
            if (b) fresh(words(ni));
            cmdr::os::pipe_stdin_to p(b ? bufs[(size_t) ni].get() : nullptr);
            if (b) in = ni;
            body();
            break;
          }
          case 4: {
            bool two = r.chance(50);
            int ni   = (int) bufs.size();
            if (two) fresh(words(ni));
            cmdr::os::pipe_all_to p(b, two ? bufs[(size_t) ni].get() : nullptr);
            if (b) cur[0] = cur[1] = cur[2] = id;
            if (two) in = ni;
            body();
            break;
          }
          default: {
            auto p = std::make_unique<cmdr::os::pipe_std_dev_to<&std::cerr>>(b);
            if (b) cur[1] = id;
            body();
          }
        }
      } catch (Stop const &) {
        thrown = true;
      }
      for (int d = 0; d < 3; d++) cur[d] = save[d];
      in = sin;
      h << ')';
      for (int d = 0; d < 3; d++) VH_CHECK(dev[d]->rdbuf() == bufs[(size_t) cur[d]].get(), "C25:restore", h.str() << ": stream " << d << " writes elsewhere after " << (thrown ? "an exception" : "the scope"));
      VH_CHECK(std::cin.rdbuf() == bufs[(size_t) in].get(), "C25:restore", h.str() << ": std::cin reads elsewhere after the scope");
      vh::count("c25_scopes");
    }
  }
};
static void c25_redirect(Rng &r) {
  auto *o0 = std::cout.rdbuf(), *e0 = std::cerr.rdbuf(), *l0 = std::clog.rdbuf(), *i0 = std::cin.rdbuf();
  {
    World25 w(r);
    for (int d = 0; d < 3; d++) {
      w.cur[d] = w.fresh();
      w.dev[d]->rdbuf(w.bufs[(size_t) w.cur[d]].get());
    }
    w.in = w.fresh();
    w.bufs[(size_t) w.in]->str(w.words(w.in));
    std::cin.rdbuf(w.bufs[(size_t) w.in].get());
    std::cin.clear();
    int in0 = w.in;
    for (int i = 0; i < 3; i++) w.scope(0);
    w.write();
    for (size_t i = 0; i < w.bufs.size(); i++) {
      if (w.bufs[i]->str().rfind("w", 0) == 0) continue; // an input
      VH_CHECK(w.bufs[i]->str() == w.want[i], "C25:bytes", w.h.str() << ": buffer " << i << " got " << brief(w.bufs[i]->str()) << ", wanted " << brief(w.want[i]));
    }
    (void) in0;
    vh::seen(w.h.str());
    vh::sample(w.h.str());
    std::cout.rdbuf(o0);
    std::cerr.rdbuf(e0);
    std::clog.rdbuf(l0);
    std::cin.rdbuf(i0);
  }
}
struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
};
static void twist(Rng &r, std::ostream &os) {
  int n = r.range(0, 5);
  for (int i = 0; i < n; i++) switch (r.below(12)) {
      case 0: os << std::hex; break;
      case 1: os << std::boolalpha; break;
      case 2: os << std::setprecision((int) r.below(20)); break;
      case 3: os << std::setfill((char) ('#' + r.below(20))); break;
      case 4: os << std::setw((int) r.below(20)); break;
      case 5: os << std::scientific; break;
      case 6: os << std::fixed; break;
      case 7: os << std::showbase << std::uppercase; break;
      case 8: os << std::left; break;
      case 9: os << std::oct << std::showpos; break;
      case 10: os << std::internal << std::unitbuf; break;
      default: os.setf(std::ios::fmtflags((unsigned) r.below(1u << 12)));
    }
}
struct FState {
  std::ios::fmtflags f;
  std::streamsize p, w;
  char fill;
  std::ios::iostate ex;
  std::string loc;
  explicit FState(std::ostream &os)
      : f(os.flags())
      , p(os.precision())
      , w(os.width())
      , fill(os.fill())
      , ex(os.exceptions())
      , loc(std::use_facet<std::numpunct<char>>(os.getloc()).decimal_point() == ',' ? "," : ".") {}
  bool operator==(FState const &o) const { return f == o.f && p == o.p && w == o.w && fill == o.fill && ex == o.ex && loc == o.loc; }
  std::string str() const {
    std::ostringstream s;
    s << "flags=" << (unsigned) f << " precision=" << p << " width=" << w << " fill=" << fill << " exceptions=" << ex << " point=" << loc;
    return s.str();
  }
};
static void saver_scope(Rng &r, std::ostream &os, int depth) {
  FState before(os);
  bool full = r.chance(60);
  bool thr  = r.chance(25);
  auto body = [&] {
    if (r.chance(80)) twist(r, os);
    if (depth < 4 && r.chance(50)) saver_scope(r, os, depth + 1);
    if (full && r.chance(10)) os.imbue(std::locale(os.getloc(), new Punct));
    if (full && r.chance(10)) os.exceptions(std::ios::badbit);
    os << 42 << ' ' << 1.5;
    if (thr) throw Stop{};
  };
  try {
    if (full) {
      cmdr::io::ios_state_saver s(os);
      VH_CHECK(FState(os) == before, "C25:saver", "creating a saver changed the stream");
      body();
    } else {
      cmdr::io::ios_flags_saver s(os);
      body();
    }
  } catch (Stop const &) {}
  FState after(os);
  if (full) VH_CHECK(after == before, "C25:saver", "ios_state_saver left " << after.str() << ", was " << before.str());
  else
    VH_CHECK(after.f == before.f, "C25:saver", "ios_flags_saver left " << after.str() << ", was " << before.str());
  vh::count("c25_savers");
}
static void c25_saver(Rng &r) {
  std::ostringstream os;
  if (r.chance(15)) os.exceptions(std::ios::badbit | std::ios::failbit);
  twist(r, os);
  try {
    for (int i = 0; i < 4; i++) {
      saver_scope(r, os, 0);
      twist(r, os);
    }
  } catch (std::exception const &e) {
    VH_CHECK(false, "C25:saver-throws", "a saver threw " << e.what());
  }
}
static void c25_inserters(Rng &r) {
  // os << stream copies everything and leaves os usable, also for an empty source
  std::string c = r.chance(30) ? "" : bytes(r, r.below(3000)), p = g_root + "/ins";
  put(p, c);
  std::ostringstream os;
  std::ifstream ifs(p, std::ios::binary);
  os << ifs << "|";
  VH_CHECK(os.str() == c + "|" && os.good(), "C25:insert", "os << ifstream of " << c.size() << " bytes gave " << os.str().size());
  std::istringstream iss(c);
  std::istream &is = iss;
  std::ostringstream o2;
  o2 << is << "|";
  VH_CHECK(o2.str() == c + "|" && o2.good(), "C25:insert", "os << istream of " << c.size() << " bytes gave " << o2.str().size());
  std::ostringstream o3, src;
  src << c;
  o3 << src << "|";
  VH_CHECK(o3.str() == c + "|" && o3.good(), "C25:insert", "os << ostringstream of " << c.size() << " bytes gave " << o3.str().size());
}
static void c25(Rng &r) {
  for (int i = 0; i < 4; i++) c25_redirect(r);
  for (int i = 0; i < 4; i++) c25_saver(r);
  c25_inserters(r);
}

int main(int argc, char **argv) {
  vh::RunOpts ro;
  ro.batch  = 20;
  ro.cpu_s  = 60;
  ro.wall_s = 20;
  return vh::drive(argc, argv, ro, [](int64_t, Rng &r) {
    vp::seed()  = r.u64();
    vp::level() = 0;
    auto &m     = vh::opt().mode;
    enter_case();
    if (m == "C23") c23(r);
    else if (m == "C24") c24(r, false);
    else if (m == "C24conc") c24(r, true);
    else
      c25(r);
    leave_case();
  });
}
