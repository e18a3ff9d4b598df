// C23: watching and prefetching leave everything but the daemon's own files alone.
#include "gen.h"
#include <fcntl.h>
#include <csignal>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
struct Shr { volatile int opened[32]; };
static void settle(pid_t p) { for (int i = 0; i < 20000; i++) { std::string t = read_file(fmt("/proc/%d/stat", (int)p)); size_t q = t.rfind(')'); if (q != std::string::npos && q + 2 < t.size() && (t[q + 2] == 'S' || t[q + 2] == 'Z')) return; usleep(200); } }
static std::map<std::string, int> ra_err;
static void round_(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); int nf = 1 + s.small(7); std::vector<std::string> path; std::vector<int> kind; Shr* sh = (Shr*)mmap(nullptr, sizeof(Shr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); std::map<int, pid_t> wr; int in = inotify_init1(IN_NONBLOCK | IN_CLOEXEC); std::map<int, std::string> wd; int pty = -1, nspecial = 0; ra_err.clear();
  std::string dir = realpath_of(ROOT "/usr/lib/"); mkfile(ROOT "/usr/lib/z"); rmfile(ROOT "/usr/lib/z");
  static const char* kn[] = {"file", "FIFO with a waiting writer", "FIFO", "terminal", "socket", "directory", "link to a file", "dangling link", "missing"};
  for (int i = 0; i < nf; i++) {
    std::string v = ROOT "/usr/lib/" + odd_name(s, i, s.chance(1, 3)), r = realpath_of(v); int k = s.weighted({6, 2, 1, 1, 1, 1, 1, 1, 1});
    if (k == 3 && pty >= 0) k = 0; if (k == 4 && r.size() >= 100) k = 2;
    if (k == 1 || k == 2) { if (mkfifo(r.c_str(), 0644)) throw CaseSkip{"no FIFO"}; }
    if (k == 0 || k == 6) { std::string t = k == 6 ? v + "~" : v, b; int n = (int)s.draw(30000); for (int j = 0; j < n; j++) b += (char)('a' + j % 26); write_file(realpath_of(t), b); chmod(realpath_of(t).c_str(), s.chance(1, 4) ? 0444 : s.chance(1, 4) ? 04755 : 0755); struct timespec ts[2] = {{1000000000 + (time_t)s.draw(1000), 7}, {1000000000 + (time_t)s.draw(100000), 9}}; utimensat(AT_FDCWD, realpath_of(t).c_str(), ts, 0); if (k == 6 && symlink((v.substr(v.rfind('/') + 1) + "~").c_str(), r.c_str())) {} if (s.chance(1, 2)) { static const int e[] = {EINVAL, ENOSYS, EOPNOTSUPP}; ra_err[t] = e[s.draw(3)]; } }
    if (k == 3) { pty = posix_openpt(O_RDWR | O_NOCTTY); char nm[64]; if (pty < 0 || grantpt(pty) || unlockpt(pty) || ptsname_r(pty, nm, sizeof nm) || symlink(nm, r.c_str())) { k = 8; } else wd[inotify_add_watch(in, nm, IN_OPEN)] = "terminal"; }
    if (k == 4) { int f = socket(AF_UNIX, SOCK_STREAM, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; snprintf(a.sun_path, sizeof a.sun_path, "%s", r.c_str()); if (bind(f, (struct sockaddr*)&a, sizeof a)) k = 8; else (void)!listen(f, 5); }
    if (k == 5) mkdir(r.c_str(), 0755); if (k == 7 && symlink("/nonexistent/target", r.c_str())) {}
    if (k == 2) wd[inotify_add_watch(in, r.c_str(), IN_OPEN)] = v;
    path.push_back(v); kind.push_back(k); c.note(printable(v) + ": " + kn[k]); if (k == 1 || k == 2 || k == 3) nspecial++;
  }
  for (int i = 0; i < nf; i++) if (kind[i] == 1) { pid_t p = real_fork(); if (!p) { std::string r = realpath_of(path[i]); sh->opened[i] = 1; int f = (int)syscall(SYS_openat, AT_FDCWD, r.c_str(), O_WRONLY, 0); (void)f; sh->opened[i] = 2; for (;;) pause(); } wr[i] = p; while (!sh->opened[i]) usleep(100); settle(p); }
  Conf k; k.sort = (int)s.draw(4); k.procs = s.chance(1, 2) ? 0 : 1 + (int)s.draw(5); if (s.chance(1, 8)) k.procs = 30; conf_to_sut(k); c.note(fmt("sort %d procs %d", k.sort, k.procs)); W.ra_errno = &ra_err;
  int n = 1 + s.small(20); std::vector<preload_map_t> ms(n); std::vector<preload_map_t*> a; for (int i = 0; i < n; i++) { memset(&ms[i], 0, sizeof ms[i]); int f = (int)s.draw(nf); ms[i].path = (char*)path[f].c_str(); ms[i].offset = s.draw(6) * 4096; ms[i].length = 1 + s.draw(30000); ms[i].block = -1; ms[i].refcount = 1; a.push_back(&ms[i]); }
  auto before = fs_snap(); { char b[4096]; while (read(in, b, sizeof b) > 0) {} } log_reset(); int rounds = 1 + s.small(2);
  // a session leader without a terminal, like the daemon, makes the requests
  pid_t p = real_fork(); if (!p) { alarm(20); setsid(); for (int i = 0; i < rounds; i++) preload_readahead(a.data(), n); int t = (int)syscall(SYS_openat, AT_FDCWD, "/dev/tty", O_RDWR | O_NOCTTY, 0); syscall(SYS_exit_group, t >= 0 ? 3 : 0); }
  int st = 0; real_waitpid(p, &st, 0); std::string fifo; for (auto& w : wr) { settle(w.second); if (sh->opened[w.first] == 2 && fifo.empty()) fifo = printable(path[w.first]); kill(w.second, SIGKILL); int x; real_waitpid(w.second, &x, 0); }
  if (WIFSIGNALED(st)) c.fail(WTERMSIG(st) == SIGALRM ? "blocked" : "crash", fmt("the round ended with signal %d", WTERMSIG(st)));
  if (WEXITSTATUS(st) == 3) c.fail("terminal-acquired", "the process acquired a mapped terminal as its own"); if (WEXITSTATUS(st)) c.fail("crash", fmt("the round ended with status %d", WEXITSTATUS(st)));
  if (!fifo.empty()) c.fail("fifo-writer", "a program waiting for a reader of " + fifo + " was let go by the prefetching");
  { char b[8192] __attribute__((aligned(8))); ssize_t l = read(in, b, sizeof b); for (ssize_t q = 0; q + (ssize_t)sizeof(struct inotify_event) <= l;) { auto* e = (struct inotify_event*)(b + q); if (e->mask & IN_OPEN) c.fail("special-opened", printable(wd[e->wd]) + " is not a regular file and was opened"); q += sizeof *e + e->len; } }
  std::string d = fs_diff(before, fs_snap()); if (!d.empty()) c.fail("changed-file", "after the round: " + d);
  int reqs = (int)log_reqs().size(); c.count(0, reqs); c.count(1, nspecial); if (nspecial) c.label("special files"); for (int x : kind) c.label(kn[x]); if (reqs >= 1 && nf >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900)); }
}
// a whole daemon under any history
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 2; p.min_cycles = 4; p.max_cycles = 16; p.max_events = 3; p.algo = s.chance(1, 2) ? 3 : 2; p.vomm_exact = s.chance(1, 2); p.check_ra = true; p.untouched = true; p.procs = s.chance(1, 2) ? 0 : 1 + (int)s.draw(4); p.dumps = true; p.deletes = s.chance(1, 3); p.reload = s.chance(1, 2); p.reload_all = s.chance(1, 2); p.switches = s.chance(1, 4); p.battery = s.chance(1, 5); p.odd_paths = s.chance(1, 4); p.dup_maps = s.chance(1, 3); p.small_sizes = s.chance(1, 4); p.autosave = !p.deletes && !p.small_sizes && s.chance(1, 2); p.check_file = false; p.check_saves = false; p.probe = false;
  SimStats st = run_history(s, c, p); c.count(2, st.predictions); c.count(3, st.cycles); if (st.restarts) c.label("restart"); c.label("daemon"); if (st.predictions) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
CheckDef g_check = {"C23", "round: two files or more and a request made; history: a round that prefetches", {{"round", round_, 2500, 60000}, {"history", history, 1200, 30000}}, {"requests", "special files", "rounds that prefetch", "rounds"}};
