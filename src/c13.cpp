// C13: parallel prefetch respects the worker limit and always finishes.
#include "gen.h"
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
static pid_t g_main; static int g_limit, g_peak, g_forks, g_over; static std::vector<int> g_child, g_parent, g_ra; static Ctx* g_c; static int g_ign;
enum { K_NONE, K_KILL, K_EXIT, K_SLOW, K_SEGV, K_TERM, K_RAKILL, K_STOPCONT };
static void in_child(int n) {
  int k = n < (int)g_child.size() ? g_child[n] : 0;
  if (k == K_KILL) raise(SIGKILL); if (k == K_EXIT) _exit(3); if (k == K_SLOW) usleep(1000 + n * 700 % 9000); if (k == K_TERM) { signal(SIGTERM, SIG_DFL); raise(SIGTERM); } if (k == K_SEGV) { struct rlimit { long a, b; }; signal(SIGABRT, SIG_DFL); raise(SIGKILL); }
}
// children that exist; when child-exit signals are ignored the kernel removes the dead ones by itself, a moment after wait() stops seeing them
static int children() {
  if (!g_ign) return count_children(); std::string l = read_file(fmt("/proc/self/task/%d/children", (int)getpid())); int n = 0;
  for (char* p = &l[0]; *p;) { char* e; long pid = strtol(p, &e, 10); if (e == p) break; p = e; bool ok; std::string st = read_file(fmt("/proc/self/../%ld/stat", pid), &ok); size_t q = st.rfind(')'); if (ok && q != std::string::npos && q + 2 < st.size() && st[q + 2] != 'X' && st[q + 2] != 'Z') n++; }
  return n;
}
static void in_parent(int n, pid_t) {
  g_forks++; int now = children(); g_peak = std::max(g_peak, now); if (now > g_limit) g_over = std::max(g_over, now);
  int k = n < (int)g_parent.size() ? g_parent[n] : 0;
  if (k == 1) usleep(3000);                                                       // let workers finish
  if (k == 2) { int st; while (syscall(61 /* wait4 */, -1, &st, WNOHANG, 0) > 0) {} }   // workers reaped elsewhere
  if (k == 3) { struct itimerval it = {{0, 0}, {0, 1 + n * 137 % 3000}}; setitimer(ITIMER_REAL, &it, nullptr); }
}
static void on_ra() { if (g_limit <= 0 && (getpid() != g_main || count_children())) log_event("BADPROC"); }
static void nop(int) {}
static void rounds(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); g_c = &c; g_main = getpid(); W.on_fork_child = in_child; W.on_fork_parent = in_parent; W.on_readahead = on_ra;
  int chld = s.weighted({4, 2, 2}); if (chld == 1) signal(SIGCHLD, SIG_IGN); if (chld == 2) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nop; sigaction(SIGCHLD, &sa, nullptr); } g_ign = chld == 1;
  { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nop; sigaction(SIGALRM, &sa, nullptr); }
  int nr = 1 + s.small(3); bool nt = false; static std::map<std::string, int> oe; oe.clear(); W.open_errno = &oe; int base = 0;
  static std::vector<int> fe, we; fe.clear(); we.clear(); W.fork_errno = &fe; W.wait_errno = &we; Model before; std::string state_before;
  for (int r = 0; r < nr; r++) {
    Conf k; static const int lim[] = {1, 2, 3, 4, 7, 30, 0, -1, -30, 1000}; k.procs = lim[s.draw(10)]; k.sort = (int)s.draw(4); conf_to_sut(k); g_limit = k.procs;
    int n = s.chance(1, 8) ? s.range(20, 45) : s.small(14); std::vector<preload_map_t> ms(n); std::vector<std::string> names; std::vector<preload_map_t*> a; bool faulty = false;
    for (int i = 0; i < n; i++) { names.push_back(ROOT "/usr/lib/" + fmt("f%d.%d", r, i)); mkfile(names.back()); if (s.chance(1, 8)) { oe[names.back()] = EACCES; } }
    for (int i = 0; i < n; i++) { memset(&ms[i], 0, sizeof ms[i]); ms[i].path = (char*)names[i].c_str(); ms[i].length = 4096; ms[i].block = -1; ms[i].refcount = 1; a.push_back(&ms[i]); }
    base = W.fork_calls; fe.assign(base, 0); g_child.assign(base, 0); g_parent.assign(base, 0); bool ff = s.chance(1, 3), kk = s.chance(1, 2), pp = s.chance(1, 2); std::string plan;
    for (int i = 0; i < n; i++) { int e = ff && s.chance(1, 3) ? (s.chance(1, 2) ? EAGAIN : ENOMEM) : 0; fe.push_back(e); int q = kk ? s.weighted({5, 2, 1, 3, 0, 1}) : 0; g_child.push_back(q); int p = pp ? s.weighted({4, 2, 2, 2}) : 0; g_parent.push_back(p); if (e || q || p) { faulty = true; plan += fmt(" %d:%s%s%s", i, e == EAGAIN ? "EAGAIN" : e ? "ENOMEM" : "", q ? (const char*[]){"", "killed", "exits", "slow", "", "terminated"}[q] : "", p ? (const char*[]){"", "+pause", "+reaped", "+alarm"}[p] : ""); } }
    we.assign(W.wait_n, 0); int eintr = 0; if (s.chance(1, 3)) { int m = 1 + s.small(12); for (int i = 0; i < m; i++) { bool e = s.chance(1, 2); we.push_back(e ? EINTR : 0); eintr += e; } } if (eintr) faulty = true; if (chld == 1) faulty = true;
    std::string what = fmt("limit %d, %d files, sort %d, child signals %s, %d interrupted waits; workers:%s", k.procs, n, k.sort, (const char*[]){"default", "ignored", "handled"}[chld], eintr, plan.c_str()); c.note(what);
    g_peak = g_forks = g_over = 0; log_reset(); log_event("START"); fflush(nullptr);
    preload_readahead(a.data(), n);
    log_event("RETURN %d", (int)getpid()); if (getpid() != g_main) syscall(231, 0);
    { struct itimerval it = {{0, 0}, {0, 0}}; setitimer(ITIMER_REAL, &it, nullptr); }
    int left = children(); if (left) c.fail("not-reaped", fmt("%d workers left after the round; ", left) + what);
    if (g_limit <= 0 && W.fork_calls != base) c.fail("fork-at-zero", fmt("%d processes created with the limit %d; ", W.fork_calls - base, k.procs) + what);
    if (g_over) c.fail("over-limit", fmt("%d workers at once with the limit %d; ", g_over, k.procs) + what);
    int ret = 0; for (auto& l : log_lines()) { if (!l.compare(0, 6, "RETURN")) ret++; if (l == "BADPROC") c.fail("fork-at-zero", "request made from another process; " + what); } if (ret != 1) c.fail("worker-returned", fmt("the round returned in %d processes; ", ret) + what);
    // files whose worker was created and not killed are all requested
    auto got = cover(log_reqs()); int lost = 0; for (size_t i = base; i < g_child.size(); i++) if ((i < fe.size() && fe[i]) || g_child[i] == K_KILL || g_child[i] == K_EXIT || g_child[i] == K_TERM) lost++; if (k.procs <= 0) lost = 0;
    int miss = 0; for (int i = 0; i < n; i++) if (!oe.count(names[i]) && !got.count(names[i])) miss++; if (miss > lost) c.fail("requests-lost", fmt("%d files were not requested though only %d workers failed; ", miss, lost) + what);
    c.count(0, n); c.count(1, g_forks); c.count(2, faulty); if (g_peak == k.procs) c.label("limit reached"); if (n > k.procs && k.procs > 0 && faulty) nt = true; if (k.procs <= 0) c.label("no workers");
  }
  c.label((const char*[]){"SIGCHLD default", "SIGCHLD ignored", "SIGCHLD handled"}[chld]); if (nt) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
// A whole daemon with workers: the limit at every process creation, across reloads of the limit and signals.
static void hist_parent(int, pid_t) { int now = count_children(); if (now > conf->system.maxprocs) child_fail("over-limit", fmt("%d workers at once with the limit %d", now, conf->system.maxprocs)); log_event("FORK"); }
static void history(Src& s, Ctx& c) {
  W.on_fork_parent = hist_parent; Profile p; p.min_apps = 3; p.max_apps = 6; p.max_lives = 2; p.min_cycles = 4; p.max_cycles = 16; p.max_events = 3; p.algo = 2; p.vomm_exact = false; p.check_ra = true; p.reload = s.chance(1, 3); p.procs = 1 + s.small(4); p.saves = s.chance(1, 2); p.save_weight = 2;
  SimStats st = run_history(s, c, p); c.label("daemon"); if (st.predictions) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
CheckDef g_check = {"C13", "rounds: more files than workers allowed and a fault or an unusual wait; history: a round that prefetches through workers", {{"rounds", rounds, 2500, 60000}, {"history", history, 500, 12000}}, {"files", "workers created", "rounds with faults"}, 15};
