// C01: a save replaces the state file completely or not at all.
#include "gen.h"
#include <csignal>
#include <fcntl.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static std::string dir_listing() {
  std::string o; std::set<std::string> s; DIR* d = opendir(g_scratch.c_str()); if (!d) return o;
  while (auto* e = readdir(d)) { std::string n = e->d_name; if (n[0] != '.' && n != "proc" && n != "sys" && n.compare(0, 7, "stderr.")) s.insert(n); }
  closedir(d); for (auto& x : s) o += x + " "; return o;
}
enum { R_OK_ = 0, R_KILLED = 77, R_BAD = 78 };
// Forks a process that runs f; returns its exit status (256 + signal if killed); log is what it wrote to stderr.
static int in_child(std::function<int()> f, std::string& log) {
  int pp[2]; if (syscall(SYS_pipe2, pp, O_CLOEXEC)) throw CaseSkip{"no pipe"}; (void)!fcntl(pp[1], F_SETPIPE_SZ, 1 << 20); fcntl(pp[1], F_SETFL, O_NONBLOCK);
  pid_t p = real_fork();
  if (p == 0) { dup2(pp[1], 2); dup2(pp[1], 1); syscall(SYS_close, pp[0]); syscall(SYS_close, pp[1]); syscall(SYS_exit_group, f()); }
  syscall(SYS_close, pp[1]); int st; real_waitpid(p, &st, 0);
  log.clear(); char buf[65536]; ssize_t n; while ((n = syscall(SYS_read, pp[0], buf, sizeof buf)) > 0) log.append(buf, n); syscall(SYS_close, pp[0]);
  return WIFSIGNALED(st) ? 256 + WTERMSIG(st) : WEXITSTATUS(st);
}
static bool reported(const std::string& log) { return log.find("failed saving state") != std::string::npos || log.find("CRITICAL") != std::string::npos || log.find("WARNING") != std::string::npos; }

// What lies at the state file and at the temporary name before the save.
struct Before { int target = 0, tmp = 0; std::string old; };
static const char* VICTIM = ROOT "/victim";
static void restore(const Before& b) {
  rm_rf(realpath_of(STATEF)); rm_rf(realpath_of(std::string(STATEF) + ".tmp")); write_file(realpath_of(VICTIM), "precious");
  std::string t = realpath_of(std::string(STATEF) + ".tmp"), st = realpath_of(STATEF);
  if (b.target == 1) write_file(st, b.old);
  if (b.target == 2) { syscall(SYS_mkdirat, AT_FDCWD, st.c_str(), 0755); write_file(st + "/x", "y"); }
  if (b.target == 3) (void)!syscall(SYS_symlinkat, VICTIM, AT_FDCWD, st.c_str());
  if (b.tmp == 1) write_file(t, std::string(300000, 'Z'));
  if (b.tmp == 2) (void)!syscall(SYS_symlinkat, VICTIM, AT_FDCWD, t.c_str());
  if (b.tmp == 3) syscall(SYS_mkdirat, AT_FDCWD, t.c_str(), 0755);
  if (b.tmp == 4) { write_file(t, "hard"); (void)!syscall(SYS_linkat, AT_FDCWD, t.c_str(), AT_FDCWD, (t + "link").c_str(), 0); }
  if (b.tmp == 6) (void)!syscall(SYS_mknodat, AT_FDCWD, t.c_str(), S_IFIFO | 0600, 0);
  if (b.tmp == 5) (void)!syscall(SYS_symlinkat, "/nonexistent/dir/x", AT_FDCWD, t.c_str());
}
static void faults(Src& s, Ctx& c) {
  sut_init(); GenOpts o; int size = s.weighted({3, 2, 1}); o.max_exes = size == 0 ? 3 : size == 1 ? 8 : 25; if (s.chance(1, 40)) o.max_exes = 70; o.max_maps = o.max_exes * 2; o.big = s.chance(1, 4);
  Model m = gen_model(s, o); for (auto& e : m.exes) mkfile(e.first, 16);
  Ref r; Conf k; k.algo = s.chance(1, 4) ? "Markov" : "VOMM"; load_both(r, m, k, {}, &s);
  Before b; b.target = s.weighted({3, 6, 1, 1}); b.tmp = s.weighted({8, 2, 1, 1, 1, 1, 1});
  switch (s.weighted({4, 1, 1})) { case 0: { GenOpts o2; o2.max_exes = 3; o2.root = ROOT "/old"; b.old = emit_state(gen_model(s, o2)); break; } case 1: b.old = ""; break; default: b.old = std::string(1 + s.draw(100000), 'g'); }
  bool cannot = b.target == 2 || b.tmp == 3;
  state->dirty = TRUE;
  Model want = dump_sut(); std::string err;
  // the undisturbed save gives the complete new content and the file-system calls a save makes
  restore(b); std::string log, before = dir_listing();
  uint32_t* npts = (uint32_t*)&g_slot->counters[15]; static std::vector<std::string>* tr;
  int rc = in_child([&] { tr = new std::vector<std::string>; W.fs_trace = tr; W.fs_armed = true; int f0 = count_fds(); preload_state_save(STATEF); W.fs_armed = false; *npts = (uint32_t)tr->size();
    std::string t; for (auto& x : *tr) t += x + "\n"; write_file(g_scratch + "/stderr.trace", t); if (count_fds() != f0) return 5; return state->dirty ? 4 : 0; }, log);
  uint32_t points = *npts; *npts = 0; std::string trace = read_file(g_scratch + "/stderr.trace"); rm_rf(g_scratch + "/stderr.trace");
  std::vector<std::string> pts; { size_t p = 0; while (p < trace.size()) { size_t e = trace.find('\n', p); pts.push_back(trace.substr(p, e - p)); p = e + 1; } }
  c.note(fmt("target=%d tmp=%d old %zu bytes, %zu programs, %zu sections, %u file-system calls", b.target, b.tmp, b.old.size(), m.exes.size(), m.maps.size(), points));
  std::string fresh;
  if (rc == 5) c.fail("descriptor-leak", "an undisturbed save left a descriptor open");
  if (!cannot) {
    if (rc != 0) c.fail("save-fails", fmt("undisturbed save ended with %d\n", rc) + log.substr(0, 1500));
    fresh = slurp(STATEF); Model got; if (!parse_state(fresh, got, err)) c.fail("file-malformed", err);
    CmpOpts co; std::string d = diff_models(want, got, co); if (!d.empty()) c.fail("saved-model", d);
  } else if (rc != 4) c.fail("not-reported", fmt("a save that cannot succeed (target %d, temporary %d) ended with %d and the model marked saved", b.target, b.tmp, rc));
  else if (!reported(log)) c.fail("not-reported", "a failed save was not reported: " + log.substr(0, 500));
  auto victim_ok = [&](const std::string& when) {
    if (slurp(VICTIM) != "precious") c.fail("wrote-through-link", when + ": the file a planted link points to was changed");
    if (b.tmp == 4 && slurp(std::string(STATEF) + ".tmplink") != "hard") c.fail("wrote-through-link", when + ": a file linked at the temporary name was changed");
  };
  auto target_state = [&]() -> std::string {   // "old", "new" or a description
    std::string real = realpath_of(STATEF); struct stat st; int e = (int)syscall(SYS_newfstatat, AT_FDCWD, real.c_str(), &st, AT_SYMLINK_NOFOLLOW);
    if (e) return b.target == 0 ? "old" : "missing";
    if (S_ISDIR(st.st_mode)) return b.target == 2 ? "old" : "a directory"; if (S_ISLNK(st.st_mode)) return b.target == 3 ? "old" : "a link";
    std::string t = slurp(STATEF); if (!cannot && t == fresh) return "new"; if (b.target == 1 && t == b.old) return "old";
    Model g; std::string er; if (!cannot && parse_state(t, g, er) && diff_models(want, g).empty()) return "new";
    return fmt("%zu bytes that are neither the previous (%zu) nor the new (%zu) state", t.size(), b.old.size(), fresh.size());
  };
  victim_ok("undisturbed save");
  if (!cannot && target_state() != "new") c.fail("save-fails", "after an undisturbed save the file holds " + target_state());
  if (cannot && target_state() != "old") c.fail("partial-file", "after a failed save the file holds " + target_state());
  { std::string l = dir_listing(); if (!cannot && l.find(".tmp ") != std::string::npos) c.fail("temporary-left", "after a successful save: " + l); if (cannot && b.tmp != 3 && l.find(".tmp ") != std::string::npos) c.fail("temporary-left", "after a failed save: " + l); }

  // faults
  static const int errs[] = {ENOSPC, EIO, EACCES, EDQUOT, EROFS, EFBIG, EPERM, ENOMEM};
  struct F { int at, kind, err; bool sticky; long arg; long fsize; bool dflt; };
  std::vector<F> fs; int maxf = 14;
  auto add = [&](int at) {
    int kind = s.weighted({3, 2, 2, 2, 2}); F f{at, kind == 0 ? FS_ERR : kind == 1 ? FS_KILL : kind == 2 ? FS_SHORT : kind == 3 ? FS_KILL_AFTER : FS_SHORT_KILL, errs[s.draw(8)], s.chance(1, 3), (long)s.draw(4096), -1, false};
    if (f.kind == FS_SHORT && at >= 0 && at < (int)pts.size() && pts[at].compare(0, 5, "write")) f.kind = FS_ERR;
    if (f.kind == FS_ERR && s.chance(1, 6) && at < (int)pts.size() && !pts[at].compare(0, 5, "write")) { f.err = EINTR; f.sticky = false; }
    fs.push_back(f);
  };
  for (uint32_t i = 0; i < points && (int)fs.size() < 5; i++) add((int)i);
  if (points > 5) { add(points - 1); add(points - 2); }
  while ((int)fs.size() < maxf - 3 && points) add((int)s.draw(points));
  for (int i = 0; i < 3; i++) fs.push_back({-1, 0, 0, false, 0, (long)s.draw(std::max<size_t>(1, fresh.size())), s.chance(1, 2)});
  int fired = 0;
  for (auto& f : fs) {
    restore(b);
    std::string w = f.fsize >= 0 ? fmt("file size limited to %ld%s", f.fsize, f.dflt ? " (fatal)" : "") : fmt("%s at call %d (%s)%s", f.kind == FS_ERR ? strerror(f.err) : f.kind == FS_KILL ? "kill before" : f.kind == FS_SHORT ? "short write" : f.kind == FS_KILL_AFTER ? "kill after" : "kill in the middle", f.at, f.at < (int)pts.size() ? pts[f.at].c_str() : "", f.sticky ? " and later" : "");
    c.note(w); c.count(1, 1);
    int rc = in_child([&]() -> int {
      int f0 = count_fds(); Model had = dump_sut();
      if (f.fsize >= 0) { signal(SIGXFSZ, f.dflt ? SIG_DFL : SIG_IGN); struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = f.fsize; setrlimit(RLIMIT_FSIZE, &rl); }
      else { W.fs_armed = true; W.fs_count = 0; W.fs_at = f.at; W.fs_kind = f.kind; W.fs_err = f.err; W.fs_sticky = f.sticky; W.fs_arg = f.arg; }
      preload_state_save(STATEF);
      W.fs_armed = false; if (f.fsize >= 0) { struct rlimit rl; getrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_FSIZE, &rl); }
      if (count_fds() != f0) return 5;
      CmpOpts co; co.bad = false; if (!diff_models(had, dump_sut(), co).empty()) return 6;
      return (state->dirty ? 4 : 0) | (W.fs_fired ? 32 : 0);
    }, log);
    if (f.fsize >= 0 ? true : (rc == 77 || (rc & 32))) fired++;
    std::string ts = target_state();
    if (ts != "old" && ts != "new") c.fail("partial-file", w + ": the state file is " + ts);
    victim_ok(w);
    if (rc == 5) c.fail("descriptor-leak", w + ": a descriptor was left open");
    if (rc == 6) c.fail("model-changed", w + ": the model changed");
    if (rc > 256 && !(f.fsize >= 0 && f.dflt && rc == 256 + SIGXFSZ)) c.fail("crash", w + fmt(": killed by signal %d\n", rc - 256) + log.substr(0, 2500));
    if (rc != 77 && rc < 256) {
      if (rc & ~36) c.fail("crash", w + fmt(": exit %d\n", rc) + log.substr(0, 2500));
      bool dirty = rc & 4; if (cannot ? !dirty : (dirty != (ts == "old"))) c.fail("dirty-flag", w + fmt(": the file holds the %s state but the model is marked %s", ts.c_str(), dirty ? "unsaved" : "saved"));
      if (dirty && !reported(log)) c.fail("not-reported", w + ": failure not reported: " + log.substr(0, 500));
      if (!dirty && log.find("failed saving") != std::string::npos) c.fail("not-reported", w + ": success reported as failure");
      bool unl = f.fsize < 0 && (f.sticky || (f.at < (int)pts.size() && pts[f.at].compare(0, 6, "unlink") == 0));
      std::string l = dir_listing(); if (l.find(".tmp ") != std::string::npos && b.tmp == 0 && !unl) c.fail("temporary-left", w + ": " + l);
    }
    // a later save (by this or by a new process) brings the file up to date
    if (!cannot && s.chance(1, 3)) {
      rc = in_child([&] { preload_state_save(STATEF); return state->dirty ? 4 : 0; }, log);
      if (rc || target_state() != "new") c.fail("later-save", w + fmt(": a later save ended with %d and the file is %s\n", rc, target_state().c_str()) + log.substr(0, 800));
      if (dir_listing().find(".tmp ") != std::string::npos) c.fail("temporary-left", w + ", then another save: " + dir_listing());
      victim_ok(w + ", then another save");
    }
  }
  c.label(fmt("target%d", b.target)); c.label(fmt("tmp%d", b.tmp)); c.label(points > 10 ? "many calls" : "few calls"); c.count(0, fired);
  if (fired >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}

// The whole daemon: the same history with and without a fault; the file always holds one of the saved states.
static void daemon(Src& s, Ctx& c) {
  int n = 2 + s.small(4); std::vector<FProc> ps; MemInfo mi; meminfo_put(mi);
  for (int i = 0; i < n; i++) { FProc p; p.pid = 6000000 + i; p.exe = ROOT "/usr/bin/" + fmt("app%d", i); p.maps = {{p.exe, 0, 3000000, ""}, {ROOT "/usr/lib/" + fmt("l%d", (int)s.draw(3)), 0, 4096 * (1 + s.draw(9)), ""}}; mkfile(p.exe); ps.push_back(p); }
  Conf k; k.dopredict = false; k.cycle = 20; k.autosave = s.chance(1, 2) ? 37 : 100000; k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; write_file(realpath_of(CONFF), k.text());
  LifeOpts lo; lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"};
  int ev = 4 + s.small(12); int64_t t = 0; std::set<int> up; int saves = 0;
  std::string snaps = g_scratch + "/stderr.snap"; int snapn = 0;
  for (int i = 0; i < ev; i++) {
    t += 3000000 + (int64_t)s.draw(15) * 1000000 + 300000;
    if (s.chance(1, 3)) { lo.acts.push_back({t, [] { raise(SIGUSR2); }}); c.note(fmt("t=%.1f save", t / 1e6)); saves++; }
    else { int a = (int)s.draw(n); FProc p = ps[a]; if (up.count(a)) { up.erase(a); lo.acts.push_back({t, [p] { proc_del(p.pid); }}); } else { up.insert(a); lo.acts.push_back({t, [p] { proc_put(p); }}); } c.note(fmt("t=%.1f %s app%d", t / 1e6, up.count(a) ? "start" : "stop", a)); }
  }
  lo.end_us = t + 30500000; LifeOpts faulty = lo;
  // snapshots of the file every 100 ms of virtual time around events (each save shows)
  std::string last; std::set<std::string> seen;
  for (int64_t x = 50000; x < lo.end_us; x += 250000) lo.acts.push_back({x, [&last, &seen, &snapn, snaps] { std::string z = slurp(STATEF); if (z != last) { last = z; write_file(snaps + fmt("%d", snapn++), z); } }});
  lo.at_exit = [&last, &snapn, snaps] { std::string z = slurp(STATEF); if (z != last) write_file(snaps + fmt("%d", snapn++), z); };
  Life l = run_life(lo); require_clean(c, l);
  std::vector<Model> ms; std::string err; for (int i = 0;; i++) { bool ok; std::string z = read_file(snaps + fmt("%d", i), &ok); if (!ok) break; Model m; if (!parse_state(z, m, err)) c.fail("file-malformed", "saved file: " + err); m.bad.clear(); ms.push_back(m); rm_rf(snaps + fmt("%d", i)); }
  if (ms.empty()) throw CaseSkip{"nothing saved"};
  Model fin = ms.back();
  for (int rep = 0; rep < 4; rep++) {
    proc_clear(); meminfo_put(mi); rm_rf(realpath_of(STATEF)); rm_rf(realpath_of(std::string(STATEF) + ".tmp"));
    int kind = s.weighted({2, 2, 1, 1, 1}), at = (int)s.draw(12) + (s.chance(1, 2) ? (int)s.draw(60) : 0); int e = std::vector<int>{ENOSPC, EIO, EACCES}[s.draw(3)]; bool sticky = s.chance(1, 4); long arg = (long)s.draw(4096);
    faulty.before_main = [=] { W.fs_armed = true; W.fs_count = 0; W.fs_at = at; W.fs_kind = kind == 0 ? FS_ERR : kind == 1 ? FS_KILL : kind == 2 ? FS_SHORT : kind == 3 ? FS_KILL_AFTER : FS_SHORT_KILL; W.fs_err = e; W.fs_sticky = sticky; W.fs_arg = arg; };
    faulty.at_exit = [] { write_file(g_scratch + "/stderr.fired", W.fs_fired ? "1" : "0"); };
    c.note(fmt("fault %d at call %d, error %d%s", kind, at, e, sticky ? ", persisting" : ""));
    Life f = run_life(faulty); bool killed = f.exit_code == 77; bool fired = killed || read_file(g_scratch + "/stderr.fired") == "1"; rm_rf(g_scratch + "/stderr.fired");
    if (!killed) { if (f.sig || f.exit_code == 99) c.fail("crash", f.why + "\n" + f.log.substr(0, 2500)); if (f.exit_code) c.fail("exit-status", f.why + "\n" + f.log.substr(0, 1500)); }
    if (fired) { c.count(0, 1); c.nontrivial(); }
    bool ok; std::string z = read_file(realpath_of(STATEF), &ok); Model m; std::string w = fmt("fault kind %d at call %d (error %d%s): ", kind, at, e, sticky ? ", persisting" : "");
    if (!ok) { if (!fired) c.fail("save-fails", w + "no state file"); continue; }
    if (!parse_state(z, m, err)) c.fail("partial-file", w + "the state file is malformed: " + err);
    m.bad.clear(); bool any = false; for (auto& q : ms) if (diff_models(q, m).empty()) any = true;
    if (!any) c.fail("not-a-saved-state", w + "the file holds none of the states saved in the undisturbed run\n" + model_str(m).substr(0, 3000));
    if (!killed && !(f.log.find("failed saving state") != std::string::npos) && !diff_models(fin, m).empty()) c.fail("later-save", w + "no failure was reported but the file is not the final state: " + diff_models(fin, m));
    // a failure that passed: the final save wrote everything
    size_t nf = 0; for (size_t p = 0; (p = f.log.find("failed saving state", p)) != std::string::npos; p++) nf++;
    size_t lastsave = f.log.rfind("saving state to"), lastfail = f.log.rfind("failed saving state");
    if (!killed && nf && lastsave != std::string::npos && lastfail < lastsave && !diff_models(fin, m).empty()) c.fail("later-save", w + "the last save succeeded but the file is not the final state: " + diff_models(fin, m));
    if (!killed && exists(std::string(STATEF) + ".tmp") && !sticky && kind != 0) c.fail("temporary-left", w);
  }
  c.count(2, saves); c.sample(std::string(g_slot->desc).substr(0, 1200));
}
CheckDef g_check = {"C01", "faults: three or more injected faults took effect; daemon: a fault took effect in a daemon history", {{"faults", faults, 500, 12000}, {"daemon", daemon, 500, 12000}}, {"faults that took effect", "fault runs", "saves requested"}};
