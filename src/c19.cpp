// C19: every signal is honoured, whenever and however densely it arrives.
// Signals are raised at generated points of activity: every branch of the code under test, every allocation and release
// (also those made inside the main loop library, with its locks held), system calls, going to sleep, and in prefetch workers.
#include "gen.h"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static const char* LOGF = ROOT "/log";
static const std::set<int>& QUITS = *new std::set<int>{SIGTERM, SIGINT, SIGQUIT};
struct Rec { int sig; int64_t t; uint64_t ino, off; int opens, renames, variant; long long state_time; bool idle; };
struct Shared { volatile int lock; volatile int n; Rec r[3000]; volatile int opens, renames, rotations, variant; volatile int quit; int64_t quit_t; volatile int64_t hup_t; volatile int unsafe, judged, judged_mid, dumps; uint64_t ref_ino, ref_from, ref_to; volatile int fired[9]; };
static Shared* S;
struct SigReq { int sig, n; bool parent; };
struct Burst { int64_t t; bool relative; uint64_t k; std::vector<SigReq> sigs; };
static std::vector<Burst>& g_b = *new std::vector<Burst>; static size_t g_next; static uint64_t g_pts, g_target; static bool g_on, g_inchild, g_idle, g_logf; static volatile int g_quiet, g_in_alloc, g_inraise; static int g_point_kind;
static std::vector<std::string>& g_conf = *new std::vector<std::string>; static std::vector<Conf>& g_confs = *new std::vector<Conf>; static std::vector<Burst>& g_cb = *new std::vector<Burst>;   // g_cb: bursts in workers
static std::string &g_real_conf = *new std::string, &g_real_log = *new std::string;   // never destroyed: workers end with exit()
static void logpos(uint64_t& ino, uint64_t& off) { struct stat st; if (syscall(SYS_fstat, 2, &st) == 0) { ino = st.st_ino; off = st.st_size; } }
static void record(int sig, bool idle) {
  if (S->n >= 2999) return; Rec& r = S->r[S->n]; r.sig = sig; r.t = W.vnow_us; r.idle = idle; logpos(r.ino, r.off); r.opens = S->opens; r.renames = S->renames; r.variant = S->variant; r.state_time = state->time;
  if (QUITS.count(sig) && !S->quit) { S->quit = sig; S->quit_t = W.vnow_us; }
  S->n = S->n + 1;
}
static void do_raise(const SigReq& q, bool idle) {
  struct sigaction sa; if (W.vnow_us <= 0 && (sigaction(q.sig, nullptr, &sa) || sa.sa_handler == SIG_DFL || sa.sa_handler == SIG_IGN)) return;   // not taking signals yet
  pid_t to = g_inchild && q.parent ? getppid() : 0;
  g_quiet++;
  if (!g_inchild || to) {
    while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) usleep(50);      // workers raise signals at the same time
    if (q.sig == SIGHUP) {   // as an administrator does: new configuration and rotated log, then the signal
      S->variant = (S->variant + 1) % (int)g_conf.size(); std::string n = g_real_conf + ".new"; write_file(n, g_conf[S->variant]); syscall(SYS_renameat2, AT_FDCWD, n.c_str(), AT_FDCWD, g_real_conf.c_str(), 0);
      if (g_logf && syscall(SYS_faccessat, AT_FDCWD, g_real_log.c_str(), 0) == 0) { S->rotations = S->rotations + 1; syscall(SYS_renameat2, AT_FDCWD, g_real_log.c_str(), AT_FDCWD, (g_real_log + fmt(".%d", S->rotations)).c_str(), 0); }
    }
    record(q.sig, idle); S->fired[g_inchild ? 8 : g_point_kind] = S->fired[g_inchild ? 8 : g_point_kind] + 1;
    __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE);
  }
  g_quiet--;
  int alloc = g_in_alloc; if (alloc) g_inraise++;
  for (int i = 0; i < q.n; i++) { if (to) kill(to, q.sig); else syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), q.sig); }
  if (alloc) g_inraise--;
}
static void fire(bool idle) {
  Burst& b = g_b[g_next++]; g_target = ~0ull; if (g_next < g_b.size() && g_b[g_next].relative) g_target = g_pts + 1 + g_b[g_next].k;   // may be reached inside the handler
  for (auto& q : b.sigs) { bool i0 = g_idle; g_idle = idle; do_raise(q, idle); g_idle = i0; }
}
static void points(int kind) {
  if (!g_on || g_quiet) return;
  if (++g_pts != g_target) return;
  g_point_kind = kind;
  if (g_inchild) { Burst b = g_cb[0]; g_target = ~0ull; for (auto& q : b.sigs) do_raise(q, false); return; }
  fire(false);
}
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (uint32_t* p = a; p < b; p++) *p = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { points(0); }
static void alloc_point(int k) {
  if (!g_on || g_quiet) return;
  if (g_inraise) { S->unsafe = 1; return; }      // a handler that interrupted the allocator uses the allocator
  g_in_alloc++; points(k); g_in_alloc--;
}
static void on_malloc(const volatile void*, size_t) { alloc_point(1); }
static void on_free(const volatile void*) { alloc_point(2); }
// ---- judgement, at quiet moments
struct Quiet { Quiet() { g_quiet++; } ~Quiet() { g_quiet--; } };
static std::string sname(int s) { return s == SIGHUP ? "HUP" : s == SIGUSR1 ? "USR1" : s == SIGUSR2 ? "USR2" : s == SIGTERM ? "TERM" : s == SIGINT ? "INT" : "QUIT"; }
static std::string rec_str(const Rec& r) { return fmt("SIG%s raised at t=%.3f (%s)", sname(r.sig).c_str(), r.t / 1e6, r.idle ? "idle" : "busy"); }
static int g_from;
static std::string file_vs_state(long long at_least, bool exact, bool renamed) {
  std::string z = slurp(STATEF), err; if (z.empty()) return "there is no state file"; Model f; if (!parse_state(z, f, err)) return "the state file is malformed: " + err;
  if (f.time < at_least && !renamed) return fmt("the state file is of time %lld, the request was made at %lld or later", f.time, at_least);
  if (exact || f.time == state->time) { CmpOpts o; o.bad = false; o.vomm = !f.vomm.ch.empty(); /* sequence data seeded by a reload may be seeded again at the next start instead */ Model m = dump_sut(); for (auto& q : m.mk) q.second.state = -1; std::string d = diff_models(m, f, o); if (!d.empty()) return "model vs state file: " + d; }
  return "";
}
static void judge() {
  bool usr2 = false, hup = false; Rec last2, lasth; int n = S->n;
  for (int i = g_from; i < n; i++) { const Rec& r = S->r[i]; if (r.sig == SIGUSR2) { usr2 = true; last2 = r; } if (r.sig == SIGHUP) { hup = true; lasth = r; } }
  if (n == g_from) return; g_from = n;
  if (S->quit) child_fail("exit-ignored", fmt("SIG%s raised at t=%.3f, still running at t=%.3f", sname(S->quit).c_str(), S->quit_t / 1e6, W.vnow_us / 1e6));
  if (hup) {
    if (S->opens <= lasth.opens) child_fail("reload-lost", rec_str(lasth) + fmt(": configuration not read again by t=%.3f", W.vnow_us / 1e6));
    const Conf& k = g_confs[lasth.variant]; if (conf->model.cycle != k.cycle || conf->model.minsize != k.minsize || (int)conf->system.sortstrategy != k.sort || conf->model.memfree != k.memfree) child_fail("reload-stale", rec_str(lasth) + ": the configuration in effect is not the one written before the request");
    struct stat a, b; if (g_logf && (syscall(SYS_newfstatat, AT_FDCWD, g_real_log.c_str(), &a, 0) || syscall(SYS_fstat, 2, &b) || a.st_ino != b.st_ino)) child_fail("log-not-reopened", rec_str(lasth) + ": the log file was not opened again after rotation");
    S->judged = S->judged + 1;
  }
  if (usr2 && last2.t > 0) { std::string d = file_vs_state(last2.state_time, false, S->renames > last2.renames); if (!d.empty()) child_fail("save-lost", rec_str(last2) + fmt(", at t=%.3f: ", W.vnow_us / 1e6) + d); S->judged = S->judged + 1; }
}
static std::string norm(std::string l) {
  if (!l.empty() && l[0] == '[') { size_t p = l.find("] "); if (p != std::string::npos && p > 15) l = l.substr(p + 2); }
  size_t e = l.size(); for (size_t i = 0; i < l.size(); i++) if (l[i] == '=' || isdigit((unsigned char)l[i])) { e = i; break; } size_t a = l.find(" at "); if (a != std::string::npos) e = std::min(e, a); return l.substr(0, e);
}
static std::vector<std::string> lines_of(const std::string& t) { std::vector<std::string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) break; std::string n = norm(t.substr(p, e - p)); if (!n.empty()) v.push_back(n); p = e + 1; } return v; }
static SigReq gen_sig(Src& s, bool quit, bool big) { static const int a[] = {SIGHUP, SIGUSR1, SIGUSR2}, q[] = {SIGTERM, SIGINT, SIGQUIT}; SigReq r; r.sig = quit ? q[s.draw(3)] : a[s.draw(3)]; r.n = s.chance(1, 8) ? 2 + (int)s.draw(4) : 1; if (big) r.n = 70000; r.parent = false; return r; }
static void signals(Src& s, Ctx& c) {
  S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); meminfo_put(MemInfo()); g_real_conf = realpath_of(CONFF); g_real_log = realpath_of(LOGF);
  g_b.clear(); g_cb.clear(); g_conf.clear(); g_confs.clear(); g_next = 0; g_pts = 0; g_target = ~0ull; g_from = 0; g_quiet = g_in_alloc = g_inraise = 0; g_inchild = g_on = false;
  Conf base; base.cycle = std::vector<int>{20, 10, 30, 40}[s.draw(4)]; base.minsize = 1000; base.memtotal = base.memfree = 100; base.procs = s.chance(1, 2) ? 1 + (int)s.draw(3) : 0; base.algo = s.chance(2, 3) ? "VOMM" : "Markov"; base.sort = (int)s.draw(4); base.autosave = s.chance(1, 3) ? 17 : 100000;
  int nv = 2 + (int)s.draw(3); for (int i = 0; i < nv; i++) { Conf k = base; if (i) { k.minsize = 1000 + i; k.memfree = 100 - i; k.sort = (int)s.draw(4); k.cycle = std::vector<int>{20, 10, 30, 40}[s.draw(4)]; if (s.chance(1, 4)) k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; if (s.chance(1, 3)) k.exeprefix = {"!" ROOT "/nowhere"}; } g_confs.push_back(k); g_conf.push_back(k.text()); }
  write_file(g_real_conf, g_conf[0]); g_logf = s.chance(1, 2);
  int na = 1 + s.small(5); std::vector<FProc> ps; for (int i = 0; i < na; i++) { FProc p; p.pid = 5000001 + i; p.exe = ROOT "/usr/bin/" + fmt("a%d", i); p.maps = {{p.exe, 0, 4096ull * (1 + s.draw(9)), ""}}; int n = s.small(3); for (int j = 0; j < n; j++) p.maps.push_back({ROOT "/usr/lib/" + fmt("l%d", (int)s.draw(4)), 4096 * s.draw(3), 4096ull * (1 + s.draw(9)), ""}); mkfile(p.exe); for (auto& m : p.maps) mkfile(m.path); ps.push_back(p); }
  int64_t end = (2 + (int64_t)s.draw(5)) * base.cycle; LifeOpts lo; std::string sum;
  { std::vector<bool> up(na); for (int i = 0; i < na; i++) { up[i] = s.chance(1, 2); if (up[i]) proc_put(ps[i]); } int ne = s.small(8); std::vector<int64_t> ts; for (int i = 0; i < ne; i++) ts.push_back(2 + (int64_t)s.draw(end)); std::sort(ts.begin(), ts.end()); for (auto t : ts) { int a = (int)s.draw(na); FProc p = ps[a]; if (up[a]) lo.acts.push_back({t * 1000000 - 600000, [p] { Quiet q; proc_del(p.pid); }}); else lo.acts.push_back({t * 1000000 - 600000, [p] { Quiet q; proc_put(p); }}); up[a] = !up[a]; sum += fmt(" %s%d@%d", up[a] ? "+" : "-", a, (int)t); } }
  bool known = s.chance(1, 2); if (known) { Model m; m.time = 1000; for (int i = 0; i < na; i++) { auto& e = m.exes[ps[i].exe]; e.time = 100 * i; for (auto& q : ps[i].maps) { MMap x{q.path, q.off, q.len}; if (std::find(e.maps.begin(), e.maps.end(), x) == e.maps.end()) e.maps.push_back(x); m.maps.insert(x); } for (int j = 0; j < i; j++) { MMk k; k.time = 10; k.w[1][3] = 2; k.w[1][1] = 2; k.ttl[1] = 30; m.put_mk(ps[j].exe, ps[i].exe, k); } if (s.chance(1, 2)) m.vomm.ch[ps[i].exe].count = 3; } write_file(realpath_of(STATEF), emit_state(m)); }
  c.note(fmt("cycle %d %s workers %d autosave %d, %d programs%s, %s, end at %lld;%s", base.cycle, base.algo.c_str(), base.procs, base.autosave, na, known ? " known" : "", g_logf ? "log file" : "no log file", (long long)end, sum.c_str()));
  // bursts
  bool start = s.chance(1, 3), quit = s.chance(3, 4), big = s.chance(1, 40); int nb = 1 + s.small(9); std::vector<int64_t> ts; for (int i = 0; i < nb; i++) ts.push_back(2 + (int64_t)(s.chance(1, 2) ? s.draw(end) : s.draw(end * 2 / base.cycle + 1) * (base.cycle / 2))); std::sort(ts.begin(), ts.end());
  auto klog = [&](int bits) { return s.draw(1ull << s.draw(bits)); };
  auto describe = [&](const Burst& b) { std::string o = b.relative ? fmt("  %llu points later:", (unsigned long long)b.k) : b.t < 0 ? fmt("  %llu points after the start:", (unsigned long long)b.k) : fmt("  t=%.1f%s:", b.t / 1e6, b.k ? fmt(" and %llu points", (unsigned long long)b.k).c_str() : ""); for (auto& q : b.sigs) o += " " + sname(q.sig) + (q.n > 1 ? fmt("*%d", q.n) : "") + (q.parent ? "(from worker)" : ""); return o; };
  for (int i = -1; i < nb; i++) {
    if (i < 0 && !start) continue; bool last = quit && i == nb - 1; Burst b; b.relative = false;
    if (i < 0) { b.t = -1; b.k = klog(14); } else { bool idle = s.chance(1, 4); b.t = ts[i] * 1000000 + (idle ? 200000 : -300000); b.k = idle ? 0 : 1 + klog(15); }
    int n = 1 + s.small(4); for (int j = 0; j < n; j++) { b.sigs.push_back(gen_sig(s, last && j == n - 1, big && s.chance(1, 3))); if (b.sigs.back().n > 5) big = false; } g_b.push_back(b);
    int nr = s.small(3); for (int j = 0; j < nr; j++) { Burst r; r.relative = true; r.t = 0; r.k = klog(13); int m = 1 + s.small(2); for (int x = 0; x < m; x++) r.sigs.push_back(gen_sig(s, last && s.chance(1, 3), false)); g_b.push_back(r); }
  }
  if (base.procs && s.chance(1, 2)) { Burst b; b.relative = true; b.t = 0; b.k = klog(8); int n = 1 + s.small(3); for (int i = 0; i < n; i++) { SigReq q = gen_sig(s, s.chance(1, 4), false); q.parent = s.chance(1, 2) && !QUITS.count(q.sig); b.sigs.push_back(q); } g_cb.push_back(b); c.note("  in each worker:" + describe(b)); }
  for (auto& b : g_b) c.note(describe(b));
  // acts
  for (size_t i = 0; i < g_b.size(); i++) if (!g_b[i].relative && g_b[i].t >= 0) lo.acts.push_back({g_b[i].t, [i] {
    while (g_next < i) { g_point_kind = 3; fire(true); g_target = ~0ull; }          // overdue
    if (g_next != i) return; if (g_b[i].k == 0) { g_point_kind = 3; fire(true); } else g_target = g_pts + g_b[i].k; }});
  for (int64_t t = 0; t <= end + 2 * 40; t++) { lo.acts.push_back({t * 1000000 + 500000, [] { Quiet q; judge(); }}); lo.acts.push_back({t * 1000000 + 890000, [] { Quiet q; judge(); }}); }
  static uint64_t held; lo.acts.push_back({1100000, [] { { Quiet q; logpos(S->ref_ino, S->ref_from); } held = g_target; g_target = ~0ull; raise(SIGUSR1); }}); lo.acts.push_back({1105000, [] { Quiet q; g_target = held; uint64_t i; logpos(i, S->ref_to); if (i != S->ref_ino) S->ref_ino = 0; }});
  lo.acts.push_back({(end + 60) * 1000000 + 300000, [] { g_point_kind = 3; do_raise({SIGTERM, 1, false}, true); }}); lo.end_us = (end + 75) * 1000000; lo.args = {"-c", CONFF, "-s", STATEF, "-l", g_logf ? LOGF : "", "-f", "-n", "0"};
  lo.before_main = [] {
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); alarm(12);
    W.on_open = [](const char* p) { if (p && !strcmp(p, CONFF)) S->opens = S->opens + 1; }; W.on_renamed = [](const char* p) { if (p && !strcmp(p, STATEF)) S->renames = S->renames + 1; }; W.on_point = [] { points(4); };
    W.on_fork_child = [](int) { g_inchild = true; g_target = g_cb.empty() ? ~0ull : g_pts + 1 + g_cb[0].k; };
    if (!g_b.empty() && g_b[0].t < 0) g_target = g_b[0].k + 1; g_on = true;
  };
  lo.at_exit = [] { g_on = false; if (S->quit && W.vnow_us > S->quit_t + 900000) child_fail("exit-late", fmt("SIG%s raised at t=%.3f, exit at t=%.3f", sname(S->quit).c_str(), S->quit_t / 1e6, W.vnow_us / 1e6)); if (W.vnow_us > 0 || slurp(STATEF).size()) { std::string d = file_vs_state(0, true, true); if (!d.empty() && W.vnow_us > 0) child_fail("final-save", "after exit: " + d); } };
  Life l = run_life(lo); if (S->unsafe) c.fail("unsafe-handler", "a signal that interrupted memory allocation led to memory allocation in its handler: this deadlocks or corrupts the heap"); if (l.sig == SIGALRM) c.fail("deadlock", "the daemon stopped making progress after a signal"); require_clean(c, l);
  // requested dumps
  std::vector<std::pair<uint64_t, std::string>> logs; if (g_logf) { for (int i = 1; i <= S->rotations + 1; i++) { std::string p = i <= S->rotations ? g_real_log + fmt(".%d", i) : g_real_log; struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, 0) == 0) logs.push_back({st.st_ino, read_file(p)}); } } else logs.push_back({0, l.log});
  auto from = [&](uint64_t ino, uint64_t off) { std::string o; bool on = !g_logf; for (auto& x : logs) { if (on) o += g_logf ? x.second : x.second.substr(std::min<size_t>(off, x.second.size())); else if (x.first == ino) { on = true; o += x.second.substr(std::min<size_t>(off, x.second.size())); } } return on ? o : std::string("?"); };
  if (S->ref_ino && !(S->quit && S->quit_t < 1200000)) {
    std::string ref = from(S->ref_ino, S->ref_from); ref = ref.substr(0, S->ref_to - S->ref_from); auto rl = lines_of(ref); if (rl.size() < 5 || ref.find("autosave") == std::string::npos || ref.find("cycle") == std::string::npos) c.fail("no-dump", "a status request of the idle daemon was answered with: " + ref);
    const Rec* last = nullptr; for (int i = 0; i < S->n; i++) { const Rec& r = S->r[i]; if (r.sig != SIGUSR1) continue; if (S->quit && r.t >= S->quit_t - 1) { bool before = r.idle && r.t == S->quit_t; for (int j = 0; j <= i && before; j++) if (QUITS.count(S->r[j].sig)) before = false; for (int j = i; j < S->n && before; j++) { if (S->r[j].t == r.t && !S->r[j].idle) before = false; if (QUITS.count(S->r[j].sig)) break; } if (!before) continue; } last = &S->r[i]; }
    if (last) { std::string t = from(last->ino, last->off); auto v = lines_of(t); size_t p = 0; for (auto& x : v) if (p < rl.size() && x == rl[p]) p++; if (p < rl.size()) c.fail("dump-lost", rec_str(*last) + ": no complete status report follows; missing from: " + rl[p] + "\nreport:\n" + ref + "\nlog since the request:\n" + t.substr(0, 3000)); S->judged = S->judged + 1; S->dumps = 1; }
  }
  static const char* kn[] = {"at a branch", "in allocation", "in release", "asleep", "at a system call"}; int kinds = 0, total = 0; for (int i = 0; i < 5; i++) if (S->fired[i]) { c.label(kn[i]); kinds++; total += S->fired[i]; } if (S->fired[8]) c.label("from worker"); if (!g_cb.empty()) c.label("signals in workers"); if (S->quit) c.label("quit " + sname(S->quit)); if (start) c.label("during start-up");
  c.count(0, S->n); c.count(1, total - S->fired[3]); c.count(2, S->judged); if (total > S->fired[3] && S->n >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
CheckDef g_check = {"C19", "at least two signals, at least one of them raised in the middle of activity", {{"signals", signals, 2500, 60000}}, {"signals raised", "in the middle of activity", "reactions verified"}, 60};
