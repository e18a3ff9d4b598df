#include "world.h"
#include <atomic>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/fs.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

WorldCfg W;

// ------------------------------------------------------------------ shared log
struct ShLog { std::atomic<uint32_t> used; char data[8 << 20]; };
static ShLog* L;
void log_reset() { if (L) { L->used = 0; } }
void log_event(const char* f, ...) {
  if (!L) return;
  char buf[5000]; va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf - 1, f, ap); va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\0';
  uint32_t at = L->used.fetch_add(n);
  if (at + n < sizeof L->data) memcpy(L->data + at, buf, n);
}
std::vector<std::string> log_lines() {
  std::vector<std::string> v; uint32_t u = L ? L->used.load() : 0, p = 0;
  while (p < u && p < sizeof L->data) { v.push_back(L->data + p); p += v.back().size() + 1; }
  return v;
}

std::vector<Req> log_reqs(size_t from, size_t* end) {
  std::vector<Req> v; auto l = log_lines(); if (end) *end = l.size();
  for (size_t i = from; i < l.size(); i++) {
    const std::string& x = l[i]; if (x.compare(0, 3, "RA ") && x.compare(0, 3, "MA ")) continue;
    bool ra = x[0] == 'R'; size_t p = x.size(); std::vector<long long> n;
    for (int k = 0; k < 4; k++) { p = x.rfind(' ', p - 1); n.insert(n.begin(), (long long)strtoull(x.c_str() + p + 1, 0, 10)); }
    Req r; r.kind = ra ? 'R' : 'M'; r.path = x.substr(3, p - 3); r.off = n[0]; r.len = n[1]; r.err = (int)n[2]; r.pid = (int)n[3]; v.push_back(r);
  }
  return v;
}
void Ranges::add(uint64_t a, uint64_t b) {
  if (b <= a) return;
  auto it = r.lower_bound(a);
  if (it != r.begin()) { auto p = std::prev(it); if (p->second >= a) it = p; }
  while (it != r.end() && it->first <= b) { a = std::min(a, it->first); b = std::max(b, it->second); it = r.erase(it); }
  r[a] = b;
}
bool Ranges::contains(const Ranges& o) const {
  for (auto& x : o.r) { auto it = r.upper_bound(x.first); if (it == r.begin()) return false; --it; if (it->second < x.second) return false; }
  return true;
}
std::string Ranges::str() const { std::string o; for (auto& x : r) o += fmt(" [%llu,%llu)", (unsigned long long)x.first, (unsigned long long)x.second); return o; }
std::map<std::string, Ranges> cover(const std::vector<Req>& v) { std::map<std::string, Ranges> m; for (auto& x : v) if (!(x.kind == 'R' && x.err)) m[x.path].add(x.off, x.off + x.len); return m; }

void world_case_init() {
  W = WorldCfg();
  int fd = (int)syscall(SYS_openat, AT_FDCWD, g_scratch.c_str(), O_PATH | O_DIRECTORY, 0);
  if (fd != ROOTFD) { syscall(SYS_dup2, fd, ROOTFD); syscall(SYS_close, fd); }
  L = (ShLog*)mmap(nullptr, sizeof(ShLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  mkdir((g_scratch + "/proc").c_str(), 0755); mkdir((g_scratch + "/sys").c_str(), 0755);
  mkdir((g_scratch + "/sys/class").c_str(), 0755); mkdir((g_scratch + "/sys/class/power_supply").c_str(), 0755);
  srandom(1);
}
std::string realpath_of(const std::string& p) {
  std::string r = ROOT;
  if (p.compare(0, r.size(), r) == 0) return g_scratch + p.substr(r.size());
  return p;
}
std::string slurp(const std::string& v) { return read_file(realpath_of(v)); }
bool exists(const std::string& v) { struct stat st; return syscall(SYS_newfstatat, AT_FDCWD, realpath_of(v).c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0; }

// ------------------------------------------------------------------ fake /proc
static void mkdirs(const std::string& real) {
  for (size_t p = g_scratch.size() + 1; (p = real.find('/', p)) != std::string::npos; p++) mkdir(real.substr(0, p).c_str(), 0755);
}
void mkfile(const std::string& p, uint64_t size) {
  std::string r = realpath_of(p); mkdirs(r);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, r.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0755);
  if (fd >= 0) { (void)!ftruncate(fd, size); syscall(SYS_close, fd); }
}
void rmfile(const std::string& p) { syscall(SYS_unlinkat, AT_FDCWD, realpath_of(p).c_str(), 0); }
void proc_del(int pid) { rm_rf(g_scratch + fmt("/proc/%d", pid)); }
void proc_clear() { rm_rf(g_scratch + "/proc"); mkdir((g_scratch + "/proc").c_str(), 0755); }
void proc_put(const FProc& p) {
  std::string d = g_scratch + fmt("/proc/%d", p.pid);
  mkdir(d.c_str(), 0755);
  std::string e = d + "/exe";
  syscall(SYS_unlinkat, AT_FDCWD, e.c_str(), 0);
  if (!p.no_exe && !p.exe.empty()) (void)!syscall(SYS_symlinkat, p.exe.c_str(), AT_FDCWD, e.c_str());
  std::string m = p.maps_text; uint64_t a = 0x555500000000ull;
  if (!p.maps_text_set) for (auto& x : p.maps) {
    if (!x.raw.empty()) { m += x.raw; continue; }
    m += fmt("%llx-%llx r-xp %08llx 08:01 %d                    ", (unsigned long long)a, (unsigned long long)(a + x.len), (unsigned long long)x.off, 1234) + x.path + "\n";
    a += x.len + 0x10000;
  }
  if (!p.no_maps) write_file(d + "/maps", m);
  else syscall(SYS_unlinkat, AT_FDCWD, (d + "/maps").c_str(), 0);
}
void meminfo_raw(const std::string& s) { write_file(g_scratch + "/proc/meminfo", s); }
void meminfo_put(const MemInfo& m) {
  std::string s = fmt("MemTotal:       %ld kB\nMemFree:        %ld kB\n", m.total, m.free_);
  if (m.has_available) s += fmt("MemAvailable:   %ld kB\n", m.available);
  s += fmt("Buffers:        %ld kB\nCached:         %ld kB\nSwapCached:            7 kB\nActive:           1000 kB\nInactive:          900 kB\n", m.buffers, m.cached);
  meminfo_raw(s);
  write_file(g_scratch + "/proc/vmstat", "nr_free_pages 12345\npgpgin 100\npgpgout 200\n");
}
void battery_put(int n, const char* st) {
  std::string d = g_scratch + fmt("/sys/class/power_supply/BAT%d", n);
  if (!st) { rm_rf(d); return; }
  mkdir(d.c_str(), 0755); std::string t = st; if (t.empty() || !strchr("\n\t ", t.back())) t += "\n"; else if (t.back() == '\t') t.pop_back();   // a trailing tab: without an end of line
  write_file(d + "/status", t);
}

int count_fds() {
  int n = 0; int fd = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/fd", O_RDONLY | O_DIRECTORY, 0);
  char buf[4096]; long r;
  while ((r = syscall(SYS_getdents64, fd, buf, sizeof buf)) > 0)
    for (long p = 0; p < r;) { auto* d = (struct dirent64*)(buf + p); if (d->d_name[0] != '.') n++; p += d->d_reclen; }
  syscall(SYS_close, fd); return n - 1;
}
int count_children() {
  std::string s = read_file(fmt("/proc/self/task/%d/children", (int)syscall(SYS_gettid)));
  int n = 0; for (char c : s) if (c == ' ') n++;
  return n;
}

// ------------------------------------------------------------------ interposers
typedef int (*sysfn)();
template <class T> static T next_sym(const char* n) { return (T)dlsym(RTLD_NEXT, n); }

// path rewriting for the simulated /proc and /sys
struct PathBuf { char b[4400]; };
static const char* rw(const char* p, PathBuf& pb) {
  if (!W.fake_proc || !p || p[0] != '/') return p;
  bool hit = false;
  if (!strncmp(p, "/proc", 5) && (p[5] == 0 || p[5] == '/')) {
    const char* q = p + 5; while (*q == '/') q++;
    hit = strncmp(q, "self", 4) != 0 && strncmp(q, "thread-self", 11) != 0;
  } else if (!strncmp(p, "/sys/class/power_supply", 23)) hit = true;
  if (!hit) return p;
  snprintf(pb.b, sizeof pb.b, "/proc/self/fd/%d%s", ROOTFD, p);
  return pb.b;
}
static int err_for(std::map<std::string, int>* m, const char* p) {
  if (!m || !p) return 0;
  auto it = m->find(p); return it == m->end() ? 0 : it->second;
}
// File-system fault points. Returns 0: go on; otherwise kind
static int fs_point(const char* what, const char* path) {
  if (!W.fs_armed) return 0;
  int n = W.fs_count++;
  if (W.fs_trace) W.fs_trace->push_back(std::string(what) + " " + (path ? path : ""));
  if (n == W.fs_at || (W.fs_sticky && W.fs_at >= 0 && n > W.fs_at)) {
    if (W.fs_kind == FS_KILL) { W.fs_fired = 1; syscall(SYS_exit_group, 77); }
    return W.fs_kind;
  }
  return 0;
}
static void fs_after(int k) { if (k == FS_KILL_AFTER) syscall(SYS_exit_group, 77); }

static inline void point() { if (W.on_point) W.on_point(); }
static int do_open(int dir, const char* path, int flags, mode_t mode) {
  point(); if (W.on_open) W.on_open(path);
  PathBuf pb; const char* p = rw(path, pb);
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!wr) { int e = err_for(W.open_errno, path); if (e) { errno = e; return -1; } }
  int k = 0;
  if (wr) {
    if (W.on_wopen) W.on_wopen(path);
    int e = err_for(W.wopen_errno, path); if (!e && W.wopen_prefix && path && !strncmp(path, W.wopen_prefix, strlen(W.wopen_prefix))) e = W.wopen_prefix_errno; if (e) { errno = e; return -1; }
    k = fs_point("open", path);
    if (k == FS_ERR || k == FS_SHORT) { W.fs_fired = 1; errno = W.fs_err; return -1; }
  }
  int r = (int)syscall(SYS_openat, dir, p, flags, mode);
  if (wr) { int e = errno; if (k == FS_SHORT_KILL || k == FS_KILL_AFTER) { W.fs_fired = 1; syscall(SYS_exit_group, 77); } errno = e; }
  return r;
}
static mode_t mode_arg(int flags, va_list ap) { return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; }

extern "C" {
int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_arg(fl, ap); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_arg(fl, ap); va_end(ap); return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_arg(fl, ap); va_end(ap); return do_open(d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = mode_arg(fl, ap); va_end(ap); return do_open(d, p, fl, m); }
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

FILE* fopen(const char* p, const char* m) {
  static auto f = next_sym<FILE* (*)(const char*, const char*)>("fopen");
  point(); if (W.on_open) W.on_open(p);
  PathBuf pb; const char* q = rw(p, pb);
  if (m[0] != 'r' || strchr(m, '+')) { if (W.on_wopen) W.on_wopen(p); int k = fs_point("open", p); if (k == FS_ERR || k == FS_SHORT) { W.fs_fired = 1; errno = W.fs_err; return nullptr; } FILE* r = f(q, m); if (k) syscall(SYS_exit_group, 77); return r; }
  int e = err_for(W.open_errno, p); if (e) { errno = e; return nullptr; }
  return f(q, m);
}
int chdir(const char* p) {
  if (W.fake_proc && p && !strcmp(p, "/")) { std::string d = g_scratch + "/rootdir"; return (int)syscall(SYS_chdir, d.c_str()); }
  PathBuf pb; return (int)syscall(SYS_chdir, rw(p, pb));
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
DIR* opendir(const char* p) {
  static auto f = next_sym<DIR* (*)(const char*)>("opendir");
  PathBuf pb; return f(rw(p, pb));
}
ssize_t readlink(const char* p, char* b, size_t n) { PathBuf pb; return syscall(SYS_readlinkat, AT_FDCWD, rw(p, pb), b, n); }
ssize_t readlinkat(int d, const char* p, char* b, size_t n) { PathBuf pb; return syscall(SYS_readlinkat, d, rw(p, pb), b, n); }
int access(const char* p, int m) { int e = err_for(W.stat_errno, p); if (e) { errno = e; return -1; } PathBuf pb; return (int)syscall(SYS_faccessat, AT_FDCWD, rw(p, pb), m); }
int faccessat(int d, const char* p, int m, int fl) { int e = err_for(W.stat_errno, p); if (e) { errno = e; return -1; } PathBuf pb; return (int)syscall(SYS_faccessat, d, rw(p, pb), m, fl); }
static std::string fd_path(int fd);
static uint64_t fake_ino(int d, const char* p) {
  if (!W.inos) return 0;
  auto it = W.inos->find(p && *p ? std::string(p) : fd_path(d)); return it == W.inos->end() ? 0 : it->second;
}
static int do_stat(int d, const char* p, void* st, int fl) {
  int e = err_for(W.stat_errno, p); if (e) { errno = e; return -1; }
  PathBuf pb; int r = (int)syscall(SYS_newfstatat, d, rw(p, pb), st, fl);
  if (!r) if (uint64_t n = fake_ino(d, p)) ((struct stat*)st)->st_ino = n;
  return r;
}
static int do_fstat(int fd, struct stat* st) { if (W.fstat_errno && !W.fstat_errno->empty()) { auto it = W.fstat_errno->find(fd_path(fd)); if (it != W.fstat_errno->end()) { errno = it->second; return -1; } } int r = (int)syscall(SYS_fstat, fd, st); if (!r) if (uint64_t n = fake_ino(fd, nullptr)) st->st_ino = n; return r; }
int fstat(int fd, struct stat* st) { return do_fstat(fd, st); }
int fstat64(int fd, struct stat64* st) { return do_fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, 0); }
int stat64(const char* p, struct stat64* st) { return do_stat(AT_FDCWD, p, st, 0); }
int lstat(const char* p, struct stat* st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char* p, struct stat64* st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstatat(int d, const char* p, struct stat* st, int fl) { return do_stat(d, p, st, fl); }
int fstatat64(int d, const char* p, struct stat64* st, int fl) { return do_stat(d, p, st, fl); }
int statx(int d, const char* p, int fl, unsigned m, struct statx* st) {
  int e = err_for(W.stat_errno, p); if (e) { errno = e; return -1; }
  PathBuf pb; int r = (int)syscall(SYS_statx, d, rw(p, pb), fl, m, st);
  if (!r) if (uint64_t n = fake_ino(d, p)) st->stx_ino = n;
  return r;
}

static ssize_t do_write(int fd, const void* b, size_t n) {
  point();
  if (W.write_errno && fd > 2) { int e = err_for(W.write_errno, fd_path(fd).c_str()); if (e) { errno = e; return -1; } }
  if (W.fs_armed && fd > 2) {
    char lk[64], path[512]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
    ssize_t l = syscall(SYS_readlinkat, AT_FDCWD, lk, path, sizeof path - 1); path[l > 0 ? l : 0] = 0;
    if (path[0] == '/') {
      int k = fs_point("write", path);
      if (k == FS_ERR) { W.fs_fired = 1; errno = W.fs_err; return -1; }
      if (k == FS_SHORT || k == FS_SHORT_KILL) {
        size_t m = n ? (size_t)(W.fs_arg % (long)n) : 0; if (!m && n) m = 1;
        ssize_t r = syscall(SYS_write, fd, b, m); W.fs_fired = 1;
        if (k == FS_SHORT_KILL) syscall(SYS_exit_group, 77);
        return r;
      }
      ssize_t r = syscall(SYS_write, fd, b, n);
      if (k == FS_KILL_AFTER) { W.fs_fired = 1; fs_after(k); }
      return r;
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if ((!W.fs_armed && !W.write_errno) || c < 1) return syscall(SYS_writev, fd, v, c);
  return do_write(fd, v[0].iov_base, v[0].iov_len);
}
#define FSOP(what, path, call) \
  if (what[0] == 'r') { int e = err_for(W.rename_errno, path); if (e) { errno = e; return -1; } } \
  int k = fs_point(what, path); \
  if (k == FS_ERR || k == FS_SHORT) { W.fs_fired = 1; errno = W.fs_err; return -1; } \
  int r = (int)(call); \
  if (k == FS_KILL_AFTER || k == FS_SHORT_KILL) { W.fs_fired = 1; syscall(SYS_exit_group, 77); } \
  return r;
static int rn(long r, const char* b) { if (!r && W.on_renamed) W.on_renamed(b); return (int)r; }
int rename(const char* a, const char* b) { point(); FSOP("rename", a, rn(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0), b)) }
int renameat(int d1, const char* a, int d2, const char* b) { FSOP("rename", a, syscall(SYS_renameat2, d1, a, d2, b, 0)) }
int renameat2(int d1, const char* a, int d2, const char* b, unsigned f) { FSOP("rename", a, syscall(SYS_renameat2, d1, a, d2, b, f)) }
int unlink(const char* a) { FSOP("unlink", a, syscall(SYS_unlinkat, AT_FDCWD, a, 0)) }
int unlinkat(int d, const char* a, int f) { FSOP("unlink", a, syscall(SYS_unlinkat, d, a, f)) }
int link(const char* a, const char* b) { FSOP("link", a, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)) }
int fsync(int fd) { FSOP("fsync", nullptr, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { FSOP("fsync", nullptr, syscall(SYS_fdatasync, fd)) }
int ftruncate(int fd, off_t n) { FSOP("truncate", nullptr, syscall(SYS_ftruncate, fd, n)) }
int ftruncate64(int fd, off64_t n) { FSOP("truncate", nullptr, syscall(SYS_ftruncate, fd, n)) }

// ---- prefetch requests
static std::string fd_path(int fd) {
  char lk[64], path[4200]; snprintf(lk, sizeof lk, "/proc/self/fd/%d", fd);
  ssize_t l = syscall(SYS_readlinkat, AT_FDCWD, lk, path, sizeof path - 1); path[l > 0 ? l : 0] = 0;
  std::string p = path;
  if (p.compare(0, g_scratch.size(), g_scratch) == 0) p = ROOT + p.substr(g_scratch.size());
  return p;
}
static void io_class(const std::string& p) { if (!W.log_io) return; long v = syscall(SYS_ioprio_get, 1, 0); if (v >> 13 != 3) log_event("IO %ld %s", v >> 13, printable(p, 4000).c_str()); }
ssize_t readahead(int fd, off64_t off, size_t n) {
  if (!W.record_ra) return syscall(SYS_readahead, fd, off, n);
  std::string p = fd_path(fd);
  int e = err_for(W.ra_errno, p.c_str()); io_class(p);
  log_event("RA %s %lld %llu %d %d", printable(p, 4000).c_str(), (long long)off, (unsigned long long)n, e, (int)getpid());
  if (W.on_readahead) W.on_readahead();
  if (e) { errno = e; return -1; }
  return 0;
}
int posix_fadvise(int fd, off_t off, off_t n, int adv) {
  if (!W.record_ra || adv != POSIX_FADV_WILLNEED) return syscall(SYS_fadvise64, fd, off, n, adv) ? errno : 0;
  std::string p = fd_path(fd); io_class(p);
  log_event("RA %s %lld %llu %d %d", printable(p, 4000).c_str(), (long long)off, (unsigned long long)n, 0, (int)getpid());
  return 0;
}
static struct { void* addr; size_t len; int64_t off; char path[4200]; } lastmap;
static void note_map(void* a, size_t n, int fd, off_t off) {
  if (W.record_ra && fd >= 0 && a != MAP_FAILED) { lastmap.addr = a; lastmap.len = n; lastmap.off = off; snprintf(lastmap.path, sizeof lastmap.path, "%s", fd_path(fd).c_str()); }
}
void* mmap(void* a, size_t n, int pr, int fl, int fd, off_t off) {
  void* r = (void*)syscall(SYS_mmap, a, n, pr, fl, fd, off);
  if (fd >= 0) note_map(r, n, fd, off);
  return r;
}
void* mmap64(void* a, size_t n, int pr, int fl, int fd, off64_t off) { return mmap(a, n, pr, fl, fd, off); }
int madvise(void* a, size_t n, int adv) {
  if (W.record_ra && adv == MADV_WILLNEED && lastmap.addr && a >= lastmap.addr && (char*)a < (char*)lastmap.addr + lastmap.len) {
    io_class(lastmap.path); log_event("MA %s %lld %llu 0 %d", printable(lastmap.path, 4000).c_str(), (long long)(lastmap.off + ((char*)a - (char*)lastmap.addr)), (unsigned long long)n, (int)getpid());
    return 0;
  }
  return (int)syscall(SYS_madvise, a, n, adv);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void* arg = va_arg(ap, void*); va_end(ap);
  if (W.fake_fibmap && req == FIBMAP) {
    std::string p = fd_path(fd);
    auto it = W.fibmap ? W.fibmap->find(p) : std::map<std::string, int>::iterator();
    if (!W.fibmap || it == W.fibmap->end()) { errno = EINVAL; return -1; }
    if (it->second < 0) { errno = -it->second; return -1; }
    // The disk is simulated as contiguous: block of logical block l is base + l
    int l = *(int*)arg; *(int*)arg = it->second ? it->second + l : 0; return 0;
  }
  return (int)syscall(SYS_ioctl, fd, req, arg);
}

// ---- processes
pid_t fork(void) {
  static auto f = next_sym<pid_t (*)()>("fork");
  point(); int n = W.fork_calls++;
  if (W.fork_errno && n < (int)W.fork_errno->size() && (*W.fork_errno)[n]) { errno = (*W.fork_errno)[n]; return -1; }
  pid_t p = f();
  if (p == 0) { if (W.on_fork_child) W.on_fork_child(n); }
  else if (p > 0) { if (W.on_fork_parent) W.on_fork_parent(n, p); }
  return p;
}
pid_t vfork(void) { return fork(); }
static bool wait_fault() {
  point();
  int n = W.wait_n++;
  if (W.wait_errno && n < (int)W.wait_errno->size() && (*W.wait_errno)[n]) { errno = (*W.wait_errno)[n]; return true; }
  return false;
}
pid_t wait4(pid_t p, int* st, int fl, struct rusage* ru) { if (wait_fault()) return -1; return (pid_t)syscall(SYS_wait4, p, st, fl, ru); }
pid_t wait3(int* st, int fl, struct rusage* ru) { return wait4(-1, st, fl, ru); }
pid_t waitpid(pid_t p, int* st, int fl) { if (wait_fault()) return -1; return (pid_t)syscall(SYS_wait4, p, st, fl, nullptr); }
pid_t wait(int* st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t* si, int fl) { if (wait_fault()) return -1; return (int)syscall(SYS_waitid, t, id, si, fl, nullptr); }

// ---- time
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (W.vtime && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_BOOTTIME || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_MONOTONIC_RAW)) {
    int64_t t = W.vnow_us + (c == CLOCK_REALTIME ? 1700000000000000ll : 1000000000ll);
    ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
}
pid_t real_fork() { static auto f = next_sym<pid_t (*)()>("fork"); return f(); }
int real_waitpid(pid_t p, int* st, int fl) { int r; do r = (int)syscall(SYS_wait4, p, st, fl, nullptr); while (r < 0 && errno == EINTR); return r; }
