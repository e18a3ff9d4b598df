// C20: start-up obeys the command line, in any combination of options and spellings.
#include "gen.h"
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#define WDIR ROOT "/w"
struct Seen { volatile int probes, forks; };
static Seen* S;
struct Eff { std::string conf = ROOT "/etc/preload.conf", state = ROOT "/var/lib/preload/preload.state", log = ROOT "/var/log/preload.log"; bool fg = false; int nice = 15, v = 4; int end = 0; };   // end: 1 information asked for, 2 usage error
enum { OC, OS, OL, OF, ON, OV, OD, OH, OVER, OBAD };
static const char* LONG[] = {"conffile", "statefile", "logfile", "foreground", "nice", "verbose", "debug", "help", "version"};
static const char SHORT[] = "cslfnVdhv";
static const int MINLEN[] = {1, 1, 1, 1, 1, 4, 1, 1, 4};
static void apply(Eff& e, int k, const std::string& v) {
  switch (k) { case OC: e.conf = v; break; case OS: e.state = v; break; case OL: e.log = v; break; case OF: e.fg = true; break; case ON: e.nice = atoi(v.c_str()); break; case OV: e.v = atoi(v.c_str()); break;
    case OD: e.log = ""; e.fg = true; e.v = 9; break; case OH: case OVER: e.end = 1; break; case OBAD: e.end = 2; break; }
}
static bool takes(int k) { return k == OC || k == OS || k == OL || k == ON || k == OV; }
static std::string at(const std::string& p) { return p.empty() || p[0] == '/' ? p : WDIR "/" + p; }   // names are relative to where the daemon is started
static void snap(const std::string& d, std::map<std::string, std::string>& m) {
  DIR* h = opendir(d.c_str()); if (!h) return;
  while (dirent* x = readdir(h)) { std::string n = x->d_name; if (n == "." || n == ".." || (d == g_scratch && n.compare(0, 6, "stderr") == 0)) continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { m[p] = "<directory>"; snap(p, m); } else m[p] = S_ISREG(st.st_mode) ? read_file(p) : "<other>"; }
  closedir(h);
}
static std::string base_of(const std::string& text) { std::string o; size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size(); std::string l = text.substr(p, e - p); if (!l.empty() && l.find("Exiting") == std::string::npos) o += l + "\n"; p = e + 1; } return o; }
static int count_of(const std::string& t, const std::string& w) { int n = 0; for (size_t p = 0; (p = t.find(w, p)) != std::string::npos; p += w.size()) n++; return n; }
static const struct { GLogLevelFlags f; const char* n; } LV[] = {{G_LOG_LEVEL_CRITICAL, "critical"}, {G_LOG_LEVEL_WARNING, "warning"}, {G_LOG_LEVEL_MESSAGE, "message"}, {G_LOG_LEVEL_INFO, "info"}, {G_LOG_LEVEL_DEBUG, "debug"}, {(GLogLevelFlags)(1 << 8), "user6"}, {(GLogLevelFlags)(1 << 9), "user7"}, {(GLogLevelFlags)(1 << 10), "user8"}, {(GLogLevelFlags)(1 << 11), "user9"}, {(GLogLevelFlags)(1 << 12), "user10"}};
static void probe_all(const char* tag) { for (auto& l : LV) g_log("probe", l.f, "%s-%s-end", tag, l.n); }

static void startup(Src& s, Ctx& c) {
  S = (Seen*)mmap(nullptr, sizeof(Seen), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->probes = S->forks = 0;
  meminfo_put(MemInfo()); mkdir((g_scratch + "/rootdir").c_str(), 0755);
  // files that options may name; every configuration has its own cycle, every state its own program
  std::map<std::string, int> cyc; std::map<std::string, std::string> prog;   // by virtual absolute name
  auto mkconf = [&](const std::string& p, int cycle) { Conf k; k.cycle = cycle; k.minsize = 1000; mkfile(p, 1); write_file(realpath_of(p), k.text()); cyc[p] = cycle; };
  auto st = [&](const std::string& p, int i) { Model m; m.time = 1000 * i; std::string x = ROOT "/usr/bin/" + fmt("known%d", i); MMap q{ROOT "/usr/lib/" + fmt("lib%d", i), 0, 40960}; m.exes[x].time = 10; m.exes[x].maps = {q}; m.maps.insert(q); m.map_update[q] = 5; mkfile(x); mkfile(q.path, 40960); mkfile(p, 1); write_file(realpath_of(p), emit_state(m)); prog[p] = x; };
  Eff d0; bool dconf = !s.chance(1, 8), dstate = !s.chance(1, 4), dlog = s.chance(1, 2);
  mkfile(d0.conf, 1); mkfile(d0.state, 1); mkfile(d0.log, 1); if (dconf) mkconf(d0.conf, 6); else rmfile(d0.conf); if (dstate) st(d0.state, 1); else rmfile(d0.state); if (dlog) write_file(realpath_of(d0.log), "kept 1\n"); else rmfile(d0.log);
  mkconf(WDIR "/c2", 10); mkconf(WDIR "/d/c 3", 14); mkconf(ROOT "/etc/c4", 18); mkfile(WDIR "/bad.conf", 1); write_file(realpath_of(WDIR "/bad.conf"), s.chance(1, 2) ? "[model]\ncycle = x\n" : "nonsense\n");
  st(WDIR "/s2", 2); st(WDIR "/d/s 3", 3); st(ROOT "/var/s4", 4); mkfile(WDIR "/bad.state", 1); write_file(realpath_of(WDIR "/bad.state"), emit_state(Model()) + (s.chance(1, 2) ? "EXE\t1\n" : "NONSENSE\t1\t2\n"));
  mkfile(WDIR "/l2", 1); write_file(realpath_of(WDIR "/l2"), "kept 2\n"); mkfile(WDIR "/d/l3", 1); write_file(realpath_of(WDIR "/d/l3"), "kept 3\n");
  static const std::vector<std::string> confs = {"c2", "d/c 3", ROOT "/etc/c4", "./c2", "../w/c2", WDIR "/d/c 3", "", "bad.conf", "none.conf"}, states = {"s2", "d/s 3", ROOT "/var/s4", "./s2", "../var/s4", "new.state", ROOT "/var/new.state", "", "bad.state", "nodir/state"}, logs = {"l2", "d/l3", WDIR "/d/l3", "./l2", "new.log", ROOT "/var/log/new.log", "", "", "nodir/log"};
  // the command line
  std::vector<std::string> args; Eff e; bool ended = false, perm = false; int n = s.small(7), ops = 0; std::set<int> kinds; int repeated = 0; std::string cluster;
  bool want_fg = s.chance(1, 2); int special = s.chance(1, 5) ? 1 + (int)s.draw(3) : 0, spot = (int)s.draw(n + 1);
  auto flush = [&] { if (!cluster.empty()) { args.push_back("-" + cluster); cluster = ""; } };
  auto value = [&](int k) { switch (k) { case OC: return confs[s.weighted({6, 3, 3, 2, 2, 2, 3, 1, 1})]; case OS: return states[s.weighted({5, 3, 3, 2, 2, 4, 2, 3, 1, 1})]; case OL: return logs[s.weighted({5, 3, 3, 2, 4, 2, 2, 3, 1})]; case ON: return fmt(s.chance(1, 6) ? "%03d" : "%d", (int)s.draw(26)); default: return fmt(s.chance(1, 8) ? "%02d" : "%d", (int)s.draw(s.chance(1, 4) ? 3 : 11)); } };
  auto add = [&](int k) {
    std::string v = takes(k) ? value(k) : ""; if (!ended) { if (!kinds.insert(k).second) repeated++; apply(e, k, v); ops++; if (e.end) ended = true; }
    std::string sh(1, SHORT[k]), lg = LONG[k]; if (s.chance(1, 3)) lg = lg.substr(0, MINLEN[k] + (int)s.draw(lg.size() - MINLEN[k] + 1));
    if (!takes(k)) { if (s.chance(1, 2)) { cluster += sh; if (s.chance(1, 2)) flush(); } else { flush(); args.push_back("--" + lg); } return; }
    switch (s.draw(4)) { case 0: cluster += sh; flush(); args.push_back(v); break; case 1: cluster += sh; if (v.empty()) { flush(); args.push_back(v); } else { cluster += v; flush(); } break; case 2: flush(); args.push_back("--" + lg); args.push_back(v); break; case 3: flush(); args.push_back("--" + lg + "=" + v); break; }
  };
  bool last_missing = false;
  for (int i = 0; i <= n; i++) {
    if (i == spot && special) {
      if (special == 1) { add(s.chance(1, 2) ? OH : OVER); }
      else if (special == 2) { static const char* bad[] = {"-x", "--bogus", "--v", "--foreground=yes", "--debug=", "-fx", "--statefiles=a", "-W"}; flush(); args.push_back(bad[s.draw(8)]); if (!ended) { if (args.back() == "-fx") apply(e, OF, ""); e.end = 2; ended = true; } }
      else last_missing = true;
    }
    if (i == n) break;
    if (s.chance(1, 10)) { flush(); args.push_back(s.chance(1, 2) ? "word" : "-"); perm = true; }
    int k = s.weighted({4, 4, 4, 2, 3, 4, 1}); add(k);
  }
  if (!ended && want_fg && !e.fg) add(OF);
  if (last_missing) { flush(); static const char* m[] = {"-c", "-fl", "--verbose", "--n", "-s"}; args.push_back(m[s.draw(5)]); if (!ended) { if (args.back() == "-fl") e.fg = true; e.end = 2; ended = true; } }
  flush();
  if (!last_missing && s.chance(1, 8)) { args.push_back("--"); static const char* a[] = {"-h", "--bogus", "-l", "x"}; args.push_back(a[s.draw(4)]); perm = true; }
  std::string cl; for (auto& a : args) cl += " '" + a + "'"; std::vector<int> ferr{EAGAIN}; bool fork_fails = !e.fg && s.chance(1, 10); if (fork_fails) W.fork_errno = &ferr;
  c.note("preload" + cl + (fork_fails ? "   (fork fails)" : ""));
  std::string C = at(e.conf), T = at(e.state), L = at(e.log);
  auto canon = [](std::string p) { std::string r = realpath_of(p); size_t q; while ((q = r.find("/./")) != std::string::npos) r.erase(q, 2); while ((q = r.find("/w/../")) != std::string::npos) r.erase(q, 5); return r; };
  auto under = [&](const std::string& v) { return v.empty() ? v : canon(v); };
  std::string rc = under(C), rt = under(T), rl = under(L), key;
  int cycle = 20; bool conf_bad = false; if (!C.empty()) { conf_bad = true; for (auto& x : cyc) if (canon(x.first) == rc) { cycle = x.second; conf_bad = false; } }
  std::string known; for (auto& x : prog) if (!T.empty() && canon(x.first) == rt) known = x.second;
  bool log_bad = e.log == "nodir/log", state_bad = e.state == "bad.state", state_nodir = e.state == "nodir/state";
  c.note(fmt("expected: conf %s state %s log %s, %s, nice %d, verbosity %d%s", rc.c_str(), rt.c_str(), rl.c_str(), e.fg ? "foreground" : "background", e.nice, e.v, e.end == 1 ? ": information" : e.end == 2 ? ": usage error" : log_bad ? ": cannot log" : conf_bad ? ": bad configuration" : fork_fails ? ": cannot fork" : state_bad ? ": bad state" : ""));
  std::map<std::string, std::string> before, after; snap(g_scratch, before);
  std::string old_log = before.count(rl) ? before[rl] : ""; int base = getpriority(PRIO_PROCESS, 0), want_nice = std::min(19, base + e.nice); pid_t sid = getsid(0);
  bool rot = !rl.empty() && s.chance(1, 2), hup = s.chance(2, 3), usr2 = s.chance(2, 3); int newcycle = 26, scale = 0;
  LifeOpts lo; lo.args = args; lo.separate_out = true; lo.end_us = 100 * 1000000ll; (void)scale;
  lo.before_main = [] { rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r); umask(022); std::string w = g_scratch + "/w"; syscall(SYS_chdir, w.c_str()); int pp[2]; if (syscall(SYS_pipe2, pp, 0) == 0 && syscall(SYS_write, pp[1], "input\n", 6) == 6) { dup2(pp[0], 0); syscall(SYS_close, pp[0]); } W.on_fork_parent = [](int, pid_t) { S->forks = S->forks + 1; }; };
  auto model_ok = [=](const char* when) {
    if (conf->model.cycle != (hup && !strcmp(when, "later") && !rc.empty() ? newcycle : cycle)) child_fail("configuration", fmt("%s: cycle is %d", when, conf->model.cycle));
    for (auto& x : prog) { bool k = g_hash_table_lookup(state->exes, x.second.c_str()) != nullptr; if (k != (x.second == known)) child_fail("state", fmt("%s: program %s of %s is %s", when, x.second.c_str(), x.first.c_str(), k ? "known" : "not known")); }
  };
  auto log_ok = [=] { struct stat a, b; if (!rl.empty()) { if (fstat(2, &a) || stat(rl.c_str(), &b) || a.st_ino != b.st_ino || a.st_dev != b.st_dev) child_fail("log-file", "messages do not go to " + rl); if (fstat(1, &a) || a.st_ino != b.st_ino) child_fail("log-file", "standard output does not go to the log file"); char ch; if (syscall(SYS_read, 0, &ch, 1) != 0) child_fail("stdin", "standard input is not empty"); } };
  lo.acts.push_back({1000000, [=] {
    S->probes = S->probes + 1; model_ok("start");
    int ni = getpriority(PRIO_PROCESS, 0); if (ni != want_nice) child_fail("nice", fmt("nice level is %d, was %d before, %d was asked for", ni, base, e.nice));
    char buf[4096] = {0}; if (readlink("/proc/self/cwd", buf, 4000) < 0) buf[0] = 0; std::string cwd = buf; mode_t um = umask(0); umask(um);
    if (e.fg) { if (getsid(0) != sid || cwd != g_scratch + "/w") child_fail("foreground", "the daemon left the session or directory it was started in: " + cwd); }
    else { if (getsid(0) == sid) child_fail("background", "the daemon is still in the session it was started from"); if (cwd != g_scratch + "/rootdir") child_fail("background", "the working directory is still " + cwd); if ((um & 7) != 7) child_fail("background", fmt("umask is %03o", um)); }
    log_ok(); probe_all("first");
  }});
  if (usr2) { lo.acts.push_back({30000000, [] { raise(SIGUSR2); }}); lo.acts.push_back({31000000, [=] { if (rt.empty() || state_nodir) return; Model f; std::string err, z = read_file(rt); if (!parse_state(z, f, err)) child_fail("save", "after a save request the state file is malformed: " + err); if (f.time <= 0 || (!known.empty() && f.time <= 1000)) child_fail("save", fmt("after a save request the state file is of time %lld", f.time)); }}); }
  if (hup) lo.acts.push_back({40000000, [=] { if (!rc.empty()) { Conf k; k.cycle = newcycle; k.minsize = 1000; write_file(rc, k.text()); } if (rot) syscall(SYS_renameat2, AT_FDCWD, rl.c_str(), AT_FDCWD, (rl + ".1").c_str(), 0); raise(SIGHUP); }});
  lo.acts.push_back({60000000, [=] { S->probes = S->probes + 1; model_ok("later"); log_ok(); probe_all("second"); }});
  Life l = run_life(lo); W.fork_errno = nullptr; snap(g_scratch, after);
  auto describe = [&](const std::string& m) { return m + "\n" + l.why + (l.detached ? fmt(", the process left behind: exit %d signal %d", l.d_exit, l.d_sig) : "") + "\nstandard output:\n" + l.out.substr(0, 1500) + "\nstandard error:\n" + l.log.substr(0, 3000) + (rl.empty() ? "" : "\nlog file:\n" + (after.count(rl) ? after[rl].substr(0, 3000) : "(none)")); };
  auto ck = [&](bool ok, const char* sig, const std::string& m) { if (!ok) c.fail(sig, describe(m)); };
  bool asan = l.log.find("AddressSanitizer") != std::string::npos || (after.count(rl) && after[rl].find("AddressSanitizer") != std::string::npos); ck(!asan || (log_bad && !e.end), "crash", "memory error");
  // files: what may differ
  std::set<std::string> may; bool runs = !e.end && !log_bad && !conf_bad && !fork_fails && !state_bad;
  if (!e.end && !rl.empty()) { may.insert(rl); if (rot && hup) may.insert(rl + ".1"); } if (runs) { if (!rt.empty()) may.insert(rt); if (hup) may.insert(rc); }
  for (auto& x : after) if (!may.count(x.first)) { auto b = before.find(x.first); ck(b != before.end(), "stray-file", "created: " + x.first); ck(b->second == x.second, "file-changed", "changed: " + x.first); }
  for (auto& x : before) ck(after.count(x.first), "file-lost", "lost: " + x.first);
  bool failed = l.sig || l.exit_code != 0; std::string text = rl.empty() || log_bad ? l.log : after.count(rl) ? after[rl] : std::string();
  if (!rl.empty() && !e.end && !log_bad) {
    std::string first = rot && hup && runs ? after.count(rl + ".1") ? after[rl + ".1"] : "" : text;
    ck(first.compare(0, old_log.size(), old_log) == 0, "log-overwritten", "the earlier content of the log file is gone"); if (!(rot && hup && runs)) text = text.substr(old_log.size());
    ck(l.out.empty() && l.log.empty(), "terminal", "there is a log file, but something was printed");
    if (!before.count(rl)) { struct stat b; ck(!stat(rl.c_str(), &b) && (b.st_mode & 077) == 0, "log-mode", "a new log file may be accessed by others"); }
  }
  if (e.end == 1) { ck(!failed && !l.detached && S->forks == 0, "information", "information was asked for"); ck(!l.out.empty() && l.log.empty(), "information", "information was asked for, to standard output"); if (kinds.count(OH)) for (auto* o : LONG) ck(l.out.find(fmt("--%s", o)) != std::string::npos, "help", fmt("--%s is not mentioned", o)); if (kinds.count(OH)) for (auto& o : {d0.conf, d0.state, d0.log}) ck(l.out.find(o) != std::string::npos, "help", "the default " + o + " is not mentioned"); }
  else if (e.end == 2) { ck(failed && !l.sig && S->forks == 0, "usage", "wrong usage was accepted"); ck(l.out.empty() && l.log.find("Usage") != std::string::npos, "usage", "no usage message on standard error"); }
  else if (log_bad || conf_bad || fork_fails) { ck(failed && !l.detached && !S->probes, "start-failure", "start-up cannot succeed, and the caller has to be told"); ck(!base_of(text).empty(), "no-message", "no message about why it does not start"); ck(S->forks == 0, "start-failure", "forked"); }
  else {
    if (e.fg) ck(!l.detached && S->forks >= 0, "foreground", "a process was left behind"); else { ck(!failed, "background", "the caller was told of a failure"); ck(l.detached, "background", "no process was left running"); }
    bool bad = e.fg ? failed : l.d_sig || l.d_exit != 0;
    if (state_bad) { ck(bad && !S->probes, "bad-state", "the state file is malformed, but it runs"); ck(!base_of(text).empty(), "no-message", "no message about why it does not start"); }
    else {
      ck(!bad, "exit-status", "failure"); ck(S->probes == 2, "not-running", fmt("observed %d times", S->probes));
      for (int i = 0; i < 10; i++) for (auto* tag : {"first", "second"}) { bool sec = tag[0] == 's', want = i + 1 <= e.v; std::string w = fmt("%s-%s-end", tag, LV[i].n); std::string t = rot && hup && !sec ? after[rl + ".1"] : text; int k = count_of(t, w); ck(k == (want ? 1 : 0), "verbosity", fmt("message %s appears %d times in the log, at verbosity %d", w.c_str(), k, e.v)); ck(count_of(l.out + l.log, w) == (rl.empty() && want), "verbosity", "message " + w + " went elsewhere"); if (rot && hup) ck(count_of(sec ? after[rl + ".1"] : text, w) == 0, "verbosity", "message " + w + " is in the wrong log file"); }
      if (!rt.empty() && !state_nodir) { Model f; std::string err; struct stat b; ck(after.count(rt), "final-save", "the state was not saved"); ck(parse_state(after[rt], f, err), "final-save", "the saved state is malformed: " + err); ck(known.empty() ? f.exes.empty() : f.exes.size() == 1 && f.exes.count(known), "final-save", "the saved state has other programs"); ck(!stat(rt.c_str(), &b) && (b.st_mode & 7) == 0, "state-mode", "the state file may be accessed by others"); }
      c.label(e.fg ? "foreground" : "background"); c.count(1, 1);
    }
  }
  c.label(e.end == 1 ? "information" : e.end == 2 ? "usage error" : log_bad ? "bad log" : conf_bad ? "bad conf" : fork_fails ? "fork fails" : state_bad ? "bad state" : "runs"); if (runs && rot && hup) c.label("log rotated"); if (perm) c.label("words between options"); if (repeated) c.label("repeated option"); if (runs && !e.fg && ((!e.conf.empty() && e.conf[0] != '/') || (!e.state.empty() && e.state[0] != '/'))) c.label("relative name in background"); if (runs && e.v == 0) c.label("verbosity 0");
  c.count(0, ops); if (ops >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
CheckDef g_check = {"C20", "at least three options, with the daemon's behaviour after them judged", {{"startup", startup, 2500, 40000}}, {"options", "daemons observed"}, 40};
