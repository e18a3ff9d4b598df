#include "sim.h"
#include "sut.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <fcntl.h>
#include <poll.h>
#include <ftw.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

const char* STATEF = ROOT "/state";
const char* CONFF = ROOT "/preload.conf";

static std::string list(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + ";"; return o; }
std::string Conf::text() const {
  std::string o = "[model]\n";
  o += fmt("cycle = %d\nusecorrelation = %s\nminsize = %d\nmemtotal = %d\nmemfree = %d\nmemcached = %d\nmembuffers = %d\n", cycle, usecorr ? "true" : "false", minsize, memtotal, memfree, memcached, membuffers);
  o += "[system]\n";
  o += fmt("doscan = %s\ndopredict = %s\nautosave = %d\n", doscan ? "true" : "false", dopredict ? "true" : "false", autosave);
  if (!mapprefix.empty()) o += "mapprefix = " + list(mapprefix) + "\n";
  if (!exeprefix.empty()) o += "exeprefix = " + list(exeprefix) + "\n";
  o += fmt("prediction_algorithm = %s\nmaxprocs = %d\nprocesses = %d\nsortstrategy = %d\n", algo.c_str(), procs, procs, sort);
  return o;
}
std::string Conf::text(Src& s) const {
  typedef std::vector<std::pair<std::string, std::string>> KV; KV m, y; bool omit = s.chance(3, 4); auto B = [&](bool v) { return std::string(s.chance(1, 4) ? (v ? "1" : "0") : v ? "true" : "false"); };
  auto put = [&](KV& k, const char* n, const std::string& v, bool def) { if (!(def && omit && s.chance(1, 2))) k.push_back({n, v}); };
  put(m, "cycle", fmt("%d", cycle), cycle == 20); put(m, "usecorrelation", B(usecorr), usecorr); put(m, "minsize", fmt("%d", minsize), minsize == 2000000); put(m, "memtotal", fmt("%d", memtotal), memtotal == -10);
  put(m, "memfree", fmt("%d", memfree), memfree == 50); put(m, "memcached", fmt("%d", memcached), memcached == 0); put(m, "membuffers", fmt("%d", membuffers), membuffers == 50);
  put(y, "doscan", B(doscan), doscan); put(y, "dopredict", B(dopredict), dopredict); put(y, "autosave", fmt("%d", autosave), autosave == 3600); put(y, "mapprefix", list(mapprefix), mapprefix.empty()); put(y, "exeprefix", list(exeprefix), exeprefix.empty());
  put(y, "prediction_algorithm", algo == "VOMM" && s.chance(1, 3) ? "\"VOMM\"" : algo, algo == "VOMM"); put(y, s.chance(1, 4) ? "maxprocs" : "processes", fmt("%d", procs), procs == 30); put(y, "sortstrategy", fmt("%d", sort), sort == 3);
  bool sh = s.chance(1, 2), com = s.chance(1, 3), sp = s.chance(1, 3), emp = s.chance(1, 3), unk = s.chance(1, 4), dup = s.chance(1, 5);
  auto emit = [&](const char* g, KV& k) {
    std::string o; if (k.empty() && emp) return o; o += fmt("[%s]\n", g); if (sh) for (size_t i = k.size(); i-- > 1;) std::swap(k[i], k[s.draw(i + 1)]);
    for (auto& e : k) { if (com && s.chance(1, 3)) o += "# " + e.first + " = 77\n\n"; if (dup && s.chance(1, 4)) o += e.first + "=" + (e.first == "prediction_algorithm" ? "Markov" : e.first.find("prefix") != std::string::npos ? "!/" : e.second == "true" || e.second == "false" ? "false" : "1") + "\n"; o += e.first + (sp ? (s.chance(1, 2) ? "=" : "  =   ") : " = ") + e.second + "\n"; }
    if (unk) o += "something_else = what;ever\n"; return o;
  };
  if (omit && emp) {   // a section none of whose keys is needed may be missing altogether
    if (cycle == 20 && usecorr && minsize == 2000000 && memtotal == -10 && memfree == 50 && memcached == 0 && membuffers == 50) m.clear();
    if (doscan && dopredict && autosave == 3600 && mapprefix.empty() && exeprefix.empty() && algo == "VOMM" && procs == 30 && sort == 3) y.clear();
  }
  std::string a = emit("model", m), b = emit("system", y), u = unk ? "[another]\ncycle = 3\n" : ""; return sh && s.chance(1, 2) ? u + b + a : a + b + u;
}
bool prefix_accepts(const std::string& p, const std::vector<std::string>& l) {
  for (auto& x : l) {
    bool rej = !x.empty() && x[0] == '!'; std::string q = rej ? x.substr(1) : x;
    if (p.compare(0, q.size(), q) == 0) return !rej;
  }
  return true;
}

// ------------------------------------------------------------------ daemon life
static std::vector<Act>* g_acts; static size_t g_act; static int64_t g_end; static bool g_ended;
static gint vpoll(GPollFD* f, guint n, gint timeout) {
  if (W.on_point) W.on_point();
  int r = (int)syscall(SYS_poll, f, n, 0);
  if (r > 0) return r;
  if (timeout == 0) return 0;
  int64_t target = timeout < 0 ? INT64_MAX : W.vnow_us + (int64_t)timeout * 1000;
  if (g_act < g_acts->size() && (*g_acts)[g_act].t_us <= target) {
    if ((*g_acts)[g_act].t_us > W.vnow_us) W.vnow_us = (*g_acts)[g_act].t_us;
    (*g_acts)[g_act++].fn();
    return 0;
  }
  if (!g_ended && g_end >= 0 && g_end <= target) { if (g_end > W.vnow_us) W.vnow_us = g_end; g_ended = true; raise(SIGTERM); return 0; }
  if (target == INT64_MAX || (g_ended && W.vnow_us > g_end + 100000ll * 1000000)) child_fail("no-stop", "the daemon did not exit after a termination request");
  W.vnow_us = target;
  return 0;
}
void child_fail(const std::string& sig, const std::string& msg) {
  snprintf(g_slot->sig, sizeof g_slot->sig, "%s", sig.c_str()); snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg.c_str());
  syscall(SYS_exit_group, 78); __builtin_unreachable();
}
Life run_life(LifeOpts o) {
  static int nlife = 0; nlife++;
  std::string logf = g_scratch + fmt("/stderr.%d", nlife);
  std::stable_sort(o.acts.begin(), o.acts.end(), [](const Act& a, const Act& b) { return a.t_us < b.t_us; });
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t pid = real_fork();
  if (pid == 0) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, logf.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    dup2(fd, 2); if (o.separate_out) { int f1 = (int)syscall(SYS_openat, AT_FDCWD, (logf + ".out").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(f1, 1); syscall(SYS_close, f1); } else dup2(fd, 1); syscall(SYS_close, fd);
    W.fake_proc = true; W.record_ra = true;
    g_acts = &o.acts; g_act = 0; g_end = o.end_us; g_ended = false;
    if (o.vtime) { W.vtime = true; W.vnow_us = 0; g_main_context_set_poll_func(g_main_context_default(), vpoll); }
    std::vector<char*> av; static std::string a0 = "preload"; av.push_back(&a0[0]);
    for (auto& a : o.args) av.push_back(&a[0]);
    av.push_back(nullptr);
    if (o.before_main) o.before_main();
    int rc = preload_main((int)av.size() - 1, av.data());
    if (o.at_exit) o.at_exit();
    fflush(stdout); fflush(stderr);
    syscall(SYS_exit_group, rc & 0xff);
  }
  int st = 0; real_waitpid(pid, &st, 0);
  Life l; l.pid = pid; int ds; while (real_waitpid(-1, &ds, 0) > 0) if (!WIFSIGNALED(st) && WEXITSTATUS(st) == 0) { l.detached = true; if (WIFSIGNALED(ds)) l.d_sig = WTERMSIG(ds); else l.d_exit = WEXITSTATUS(ds); }
  l.log = read_file(logf); if (o.separate_out) { l.out = read_file(logf + ".out"); syscall(SYS_unlinkat, AT_FDCWD, (logf + ".out").c_str(), 0); }
  syscall(SYS_unlinkat, AT_FDCWD, logf.c_str(), 0);
  if (WIFSIGNALED(st)) { l.sig = WTERMSIG(st); l.why = fmt("killed by signal %d", l.sig); }
  else { l.exit_code = WEXITSTATUS(st); l.why = fmt("exit status %d", l.exit_code); }
  if ((l.exit_code == 78 || l.d_exit == 78) && g_slot->sig[0]) throw CaseFail{g_slot->sig, g_slot->msg};
  return l;
}
static std::string tail(const std::string& s, size_t n) {
  size_t p = s.find("ERROR: AddressSanitizer"); if (p != std::string::npos) return s.substr(p, n);
  return s.size() > n ? s.substr(s.size() - n) : s;
}
void require_clean(Ctx& c, const Life& l, bool allow_assert) {
  if (l.sig || l.exit_code == 99 || l.log.find("ERROR: AddressSanitizer") != std::string::npos) c.fail("crash", "daemon crashed: " + l.why + "\n" + tail(l.log, 3500));
  if (l.exit_code != 0) c.fail("exit-status", "daemon ended with " + l.why + "\n" + tail(l.log, 1500));
  if (!allow_assert) {
    size_t p = l.log.find("assertion '"); if (p == std::string::npos) p = l.log.find("GLib-CRITICAL");
    if (p != std::string::npos) c.fail("assertion", "internal consistency check failed: " + l.log.substr(p > 80 ? p - 80 : 0, 400));
  }
}

// ------------------------------------------------------------------ reference model
bool Ref::accepted_exe(const std::string& p) const { return prefix_accepts(p, conf.exeprefix); }
static VNode* at(VNode* n, const std::vector<std::string>& path) { for (auto& x : path) { auto it = n->ch.find(x); if (it == n->ch.end()) return nullptr; n = &it->second; } return n; }
void Ref::launch(const std::string& p) {
  if (!conf.vomm() || !tree_live) return;
  launches++;
  hist.push_back(p); if (hist.size() > 5) hist.erase(hist.begin());
  if (cur.size() >= 5) cur.clear();
  VNode* n = at(&tree, cur); if (!n) { cur.clear(); n = &tree; }
  n->ch[p].count++; cur.push_back(p);
  if (hist.size() >= 2) tree.ch[hist[hist.size() - 2]].ch[p].count++;
}
static void prune(VNode& n, const std::string& p) { n.ch.erase(p); for (auto& c : n.ch) prune(c.second, p); }
void Ref::forget(const std::string& p) {
  exes.erase(p); pend_changed.erase(p);
  for (auto it = pairs.begin(); it != pairs.end();) if (it->first.first == p || it->first.second == p) it = pairs.erase(it); else ++it;
  prune(tree, p); hist.erase(std::remove(hist.begin(), hist.end(), p), hist.end());
  if (!at(&tree, cur)) cur.clear();
  removed++;
}
void Ref::hydrate() {
  tree_live = true;
  for (auto& k : pairs) {
    int ab = k.second.k.w[1][3], ba = k.second.k.w[2][3];
    if (ab > 0) tree.ch[k.first.first].ch[k.first.second].count += ab;
    if (ba > 0) tree.ch[k.first.second].ch[k.first.first].count += ba;
  }
}
void Ref::set_conf(const Conf& n) { conf = n; if (conf.vomm()) { tree_live = true; if (tree.ch.empty()) hydrate(); } }
void Ref::load() {
  exes.clear(); bad.clear(); pairs.clear(); tree = VNode(); tree_live = false; hist.clear(); cur.clear(); pend_new.clear(); pend_changed.clear();
  time = last_acct = 0; dirty = model_dirty = false;
  if (has_disk) {
    time = last_acct = disk.time;
    for (auto& e : disk.exes) { RExe x; x.time = e.second.time; x.maps.insert(e.second.maps.begin(), e.second.maps.end()); x.ct = -1; exes[e.first] = x; }
    for (auto& k : disk.mk) { RPair r; r.k = k.second; r.ct = time; pairs[k.first] = r; }
    tree = disk.vomm; tree_live = !tree.ch.empty();
  }
  std::set<std::string> seen; for (auto& p : procs) if (accepted_exe(p.second.exe)) seen.insert(p.second.exe);
  int n = 0;
  for (auto& e : exes) if (seen.count(e.first)) { e.second.running = true; n++; launch(e.first); }
  if (n > 1 && tree_live && conf.vomm()) vomm_ambiguous = true;
  for (auto& k : pairs) k.second.st = (exes[k.first.first].running ? 1 : 0) + (exes[k.first.second].running ? 2 : 0);
  if (conf.vomm()) { tree_live = true; if (tree.ch.empty()) hydrate(); }
}
std::map<std::string, double> Ref::need_exe() const {
  std::map<std::string, double> ln;
  for (auto& e : exes) if (!e.second.running) ln[e.first] = 0;
  if (conf.vomm()) {
    if (!tree_live) return ln;
    auto ppm = [&](const VNode& n) {
      double tot = 0; for (auto& c : n.ch) tot += c.second.count;
      if (tot > 0) for (auto& c : n.ch) if (ln.count(c.first)) ln[c.first] += log(1 - std::min(0.99, c.second.count / tot));
    };
    for (auto& h : hist) { auto it = tree.ch.find(h); if (it != tree.ch.end()) ppm(it->second); }
    const VNode* n = at(const_cast<VNode*>(&tree), cur);
    if (n && !cur.empty()) { ppm(*n); for (auto& c : n->ch) if (c.second.count > 0 && ln.count(c.first)) ln[c.first] -= log(1.1); }
    double tot = 0; for (auto& a : tree.ch) for (auto& b : a.second.ch) tot += b.second.count;
    if (tot > 0) for (auto& a : tree.ch) for (auto& b : a.second.ch) if (b.second.count > 0 && ln.count(b.first)) ln[b.first] += log(1 - (0.1 + 0.4 * b.second.count / tot));
    return ln;
  }
  for (auto& k : pairs) {
    const MMk& m = k.second.k; int st = k.second.st; if (!m.w[st][st] || !(m.ttl[st] > 1)) continue;
    double corr = 1;
    if (conf.usecorr) {
      double t = time, a = exes.at(k.first.first).time, b = exes.at(k.first.second).time, ab = m.time;
      corr = (a == 0 || b == 0 || a == t || b == t) ? 0 : (t * ab - a * b) / std::sqrt((a * b) * ((t - a) * (t - b)));
      if (!(std::fabs(corr) <= 1.00001)) corr = 0;
    }
    double pc = 1 - exp(-1.5 * conf.cycle / m.ttl[st]);
    for (int y = 1; y <= 2; y++) if (!(st & y)) {
      double p = std::fabs(corr) * pc * (m.w[st][y] + m.w[st][3]) / (m.w[st][st] + 0.01);
      ln[y == 1 ? k.first.first : k.first.second] += log(1 - p);
    }
  }
  return ln;
}
std::map<MMap, double> Ref::need_map() const {
  std::map<MMap, double> r; auto ln = need_exe();
  for (auto& e : exes) for (auto& q : e.second.maps) r[q] += e.second.running ? 1 : ln[e.first];
  return r;
}
void Ref::scan() {
  pend_new.clear(); pend_changed.clear();
  std::map<std::string, std::set<int>> seen;
  for (auto& p : procs) if (accepted_exe(p.second.exe)) seen[p.second.exe].insert(p.first);
  int n = 0;
  for (auto& x : seen) {
    auto it = exes.find(x.first);
    if (it == exes.end()) { if (!bad.count(x.first)) pend_new[x.first] = x.second; }
    else if (!it->second.running) { it->second.running = true; pend_changed.insert(x.first); launch(x.first); n++; }
  }
  if (n > 1 && conf.vomm()) vomm_ambiguous = true;
  for (auto& e : exes) if (e.second.running && !seen.count(e.first)) { e.second.running = false; pend_changed.insert(e.first); }
}
void Ref::update() {
  for (auto& x : pend_changed) exes[x].ct = time;
  for (auto& k : pairs) {
    if (!pend_changed.count(k.first.first) && !pend_changed.count(k.first.second)) continue;
    RPair& r = k.second; int ns = (exes[k.first.first].running ? 1 : 0) + (exes[k.first.second].running ? 2 : 0);
    if (ns == r.st || r.ct == time) continue;
    r.k.w[r.st][r.st]++; r.k.ttl[r.st] += ((double)(time - r.ct) - r.k.ttl[r.st]) / r.k.w[r.st][r.st];
    r.k.w[r.st][ns]++; r.st = ns; r.ct = time; transitions++;
  }
  pend_changed.clear();
  int n = 0;
  for (auto& x : pend_new) {
    // all processes of the program have the same layout; it is examined through one of them
    const RProc* p = nullptr; for (int pid : x.second) { auto it = procs.find(pid); if (it != procs.end() && it->second.exe == x.first) { p = &it->second; break; } }
    if (!p) continue;
    long long size = 0; std::set<MMap> ms;
    for (auto& m : p->maps) if (!m.path.empty() && m.path[0] == '/' && prefix_accepts(m.path, conf.mapprefix)) { size += m.len; ms.insert({m.path, m.off, m.len}); }
    if (!size) continue;
    if (size < conf.minsize) { bad.insert(x.first); continue; }
    RExe e; e.maps = ms; e.ct = time; e.running = true;
    for (auto& o : exes) {
      RPair r; std::string a = std::min(o.first, x.first), b = std::max(o.first, x.first);
      bool onew = o.first == a; int obit = onew ? 1 : 2, nbit = onew ? 2 : 1;
      r.st = (o.second.running ? obit : 0) + nbit; r.ct = time;
      if (o.second.ct > 0 && o.second.ct < time) {
        int os = r.st & ~nbit; r.k.w[os][os]++; r.k.w[os][r.st]++; r.k.ttl[os] = (double)(time - o.second.ct); transitions++;
      }
      pairs[{a, b}] = r;
    }
    exes[x.first] = e; n++; launch(x.first);
  }
  if (n > 1 && conf.vomm()) vomm_ambiguous = true;
  pend_new.clear();
  long long per = time - last_acct;
  for (auto& e : exes) if (e.second.running) e.second.time += per;
  for (auto& k : pairs) if (k.second.st == 3) k.second.k.time += per;
  last_acct = time; dirty = true;
}
int Ref::tick() {
  predicted.clear(); has_prediction = false;
  if (!batteries.empty()) { time += conf.cycle * 2; return conf.cycle * 2; }
  if (conf.doscan) { scan(); dirty = model_dirty = true; }
  if (conf.dopredict) { predicted = need_map(); has_prediction = conf.memtotal > -100; }
  time += conf.cycle / 2; return conf.cycle / 2;
}
int Ref::tick2() {
  if (model_dirty) { update(); model_dirty = false; }
  time += (conf.cycle + 1) / 2; return (conf.cycle + 1) / 2;
}
void Ref::save(bool fails) {   // what is gone is forgotten, and what was too small gets another chance, also when nothing could be written
  if (dirty && !fails) { disk = snapshot(); has_disk = true; dirty = false; saves++; }
  std::vector<std::string> rm; for (auto& e : exes) if (!e.second.running && gone.count(e.first)) rm.push_back(e.first);
  for (auto& x : rm) forget(x);
  bad.clear();
}
Model Ref::snapshot() const {
  Model m; m.time = time;
  for (auto& e : exes) { auto& x = m.exes[e.first]; x.time = e.second.time; x.maps.assign(e.second.maps.begin(), e.second.maps.end()); m.maps.insert(e.second.maps.begin(), e.second.maps.end()); }
  for (auto& b : bad) m.bad[b] = 1;
  for (auto& k : pairs) { m.mk[k.first] = k.second.k; m.mk[k.first].state = k.second.st; }
  m.vomm = tree; return m;
}

// ------------------------------------------------------------------ generated histories
static size_t g_ra_from;
static std::pair<long, int> vsum(const VNode& n) { std::pair<long, int> r{0, 0}; for (auto& c : n.ch) { auto x = vsum(c.second); r.first += c.second.count + x.first; r.second = std::max(r.second, x.second + 1); } return r; }
static std::map<std::string, std::string> g_fs;
static int fs_cb(const char* p, const struct stat* st, int, struct FTW*);
static std::map<std::string, std::string>* g_into; static bool g_at;
static int fs_cb(const char* p, const struct stat* st, int, struct FTW*) {
  std::string r = std::string(p).substr(std::min(strlen(p), g_scratch.size())); if (r.empty() || r.compare(0, 6, "/state") == 0 || r.compare(0, 8, "/stderr.") == 0) return 0;
  bool own = !g_at || r == "/preload.conf" || r.compare(0, 6, "/proc/") == 0 || r.compare(0, 5, "/sys/") == 0 || !S_ISREG(st->st_mode);   // read by right
  (*g_into)[r] = fmt("inode %llu mode %o owner %d size %lld links %d modified %lld.%09ld changed %lld.%09ld", (unsigned long long)st->st_ino, (unsigned)st->st_mode, (int)st->st_uid, S_ISREG(st->st_mode) ? (long long)st->st_size : 0ll, S_ISDIR(st->st_mode) ? 0 : (int)st->st_nlink, (long long)st->st_mtim.tv_sec, st->st_mtim.tv_nsec, (long long)st->st_ctim.tv_sec, st->st_ctim.tv_nsec) + (own ? "" : fmt(" accessed %lld.%09ld", (long long)st->st_atim.tv_sec, st->st_atim.tv_nsec));
  return 0;
}
std::map<std::string, std::string> fs_snap(bool at) { std::map<std::string, std::string> m; g_into = &m; g_at = at; nftw(g_scratch.c_str(), fs_cb, 16, FTW_PHYS); return m; }
std::string fs_diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) {
  for (auto& x : a) { auto it = b.find(x.first); if (it == b.end()) return x.first + " is gone"; if (it->second != x.second) return x.first + ": before: " + x.second + "; after: " + it->second; }
  for (auto& x : b) if (!a.count(x.first)) return x.first + " has appeared"; return "";
}
static void untouched_check() { std::string d = fs_diff(g_fs, fs_snap()); if (!d.empty()) child_fail("changed-file", "while the daemon was running, by t=" + fmt("%.1f: ", W.vnow_us / 1e6) + d); for (auto& l : log_lines()) { if (!l.compare(0, 3, "WO ")) child_fail("opened-for-writing", l.substr(3) + " was opened for writing"); if (!l.compare(0, 3, "IO ")) child_fail("io-priority", "a range of " + l.substr(5) + " was requested at I/O priority class " + l.substr(3, 1) + ", not idle (3)"); } }
static void wopen_hook(const char* p) { std::string r = realpath_of(p ? p : ""); char cwd[4096]; if (!r.empty() && r[0] != '/' && syscall(SYS_getcwd, cwd, sizeof cwd) > 0) r = std::string(cwd) + "/" + r; if (r.compare(0, g_scratch.size(), g_scratch)) return; r = r.substr(g_scratch.size()); if (r.compare(0, 6, "/state") && r.compare(0, 8, "/stderr.")) log_event("WO %s", printable(r, 4000).c_str()); }

Report parse_report(const std::string& text) {
  Report r; r.text = text; std::string g; size_t p = 0; bool on = false;
  while (p < text.size()) {
    size_t e = text.find('\n', p); if (e == std::string::npos) e = text.size(); std::string l = text.substr(p, e - p); p = e + 1; if (l.empty() || l[0] == '#') continue;
    size_t q = l.find(" = ");
    if (l[0] == '[' && l.back() == ']' && l.find(' ') == std::string::npos) { g = l.substr(1, l.size() - 2); on = true; continue; }
    if (q == std::string::npos) continue; std::string k = l.substr(0, q), v = l.substr(q + 3); if (on && k.find(' ') == std::string::npos) { r.set[g + "." + k] = v; continue; }
    long n = strtol(v.c_str(), nullptr, 10); if (k == "preload time") r.time = n; else if (k == "num exes") r.exes = n; else if (k == "num bad exes") r.bad = n; else if (k == "num maps") r.maps = n; else if (k == "num running exes") r.running = n;
  }
  return r;
}
std::map<std::string, std::string> settings_of(const Conf& k) {
  auto B = [](bool b) { return std::string(b ? "true" : "false"); }; auto I = [](int i) { return fmt("%d", i); }; auto L = [](const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : ";") + x; return o; };
  return {{"model.cycle", I(k.cycle)}, {"model.usecorrelation", B(k.usecorr)}, {"model.minsize", I(k.minsize)}, {"model.memtotal", I(k.memtotal)}, {"model.memfree", I(k.memfree)}, {"model.memcached", I(k.memcached)}, {"model.membuffers", I(k.membuffers)}, {"system.doscan", B(k.doscan)}, {"system.dopredict", B(k.dopredict)},
          {"system.autosave", I(k.autosave)}, {"system.mapprefix", L(k.mapprefix)}, {"system.exeprefix", L(k.exeprefix)}, {"system.prediction_algorithm", k.algo}, {"system.maxprocs", I(k.procs)}, {"system.sortstrategy", I(k.sort)}};
}
std::string diff_report(const Report& r, const Model& m, int running, const Conf& c) {
  auto bad = [&](const char* w, long a, long b) { return fmt("the report says %s %ld, expected %ld\n", w, a, b) + r.text.substr(0, 3000); };
  if (r.time != m.time) return bad("time", r.time, m.time); if (r.exes != (long)m.exes.size()) return bad("programs", r.exes, m.exes.size()); if (r.bad != (long)m.bad.size()) return bad("uninteresting programs", r.bad, m.bad.size());
  if (r.maps != (long)m.maps.size()) return bad("file sections", r.maps, m.maps.size()); if (r.running != running) return bad("running programs", r.running, running);
  for (auto& x : settings_of(c)) {
    auto it = r.set.find(x.first); if (it == r.set.end() && x.first == "system.maxprocs") it = r.set.find("system.processes"); std::string g = it == r.set.end() ? "(missing)" : it->second, w = x.second;
    auto q = [](std::string t) { if (t.size() >= 2 && t[0] == '"' && t.back() == '"') t = t.substr(1, t.size() - 2); while (!t.empty() && t.back() == ';') t.pop_back(); return t; };
    if (q(g) != q(w)) return fmt("the report says %s = %s, expected %s\n", x.first.c_str(), printable(g).c_str(), printable(w).c_str()) + r.text.substr(0, 3000);
  }
  return "";
}
static std::string log_from(size_t at) { fflush(stderr); fflush(stdout); std::string t = read_file("/proc/self/fd/2"); return at <= t.size() ? t.substr(at) : t; }
static size_t g_rep_at; static Model g_rep_m; static ino_t g_rep_ino;
static ino_t state_ino() { struct stat st; std::string p = realpath_of(STATEF); return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) ? 0 : st.st_ino; }
struct App { std::string path; std::vector<FMap> maps; };

SimStats run_history(Src& s, Ctx& c, const Profile& p) {
  SimStats st; Ref ref; LifeOpts lo;
  int napps = p.min_apps + s.small(p.max_apps - p.min_apps); bool crowd = p.preset && s.chance(1, 40); if (crowd) napps = 12 + (int)s.draw(40);
  std::vector<std::string> dirs = {ROOT "/usr/bin/", ROOT "/opt/x/", ROOT "/usr/sbin/"};
  std::vector<std::string> odd = {"with space", "per%cent", "tab\tname", "uml\xc3\xa4ut", "a#b", "q\"uote'", "semi;colon", "back\\slash", "x (copy)"};
  std::vector<App> apps; Conf conf;
  int unit = 1000, nlibs = std::max(4, napps); bool longname = p.odd_paths && s.chance(1, 3), huge = s.chance(1, 8) && !p.check_ra;
  auto pad = [&](std::string x) { size_t n = 300 + s.draw(205); while (x.size() < n) x += x.size() % 50 == 49 ? "/" : "n"; if (x.back() == '/') x += "z"; return x; };
  for (int i = 0; i < napps; i++) {
    App a; std::string dir = dirs[s.weighted({6, 2, 1})];
    a.path = dir + fmt("app%d", i) + (p.odd_paths && s.chance(1, 3) ? odd[s.draw(odd.size())] : std::string());
    if (longname && s.chance(1, 2)) a.path = pad(a.path + "/");
    a.maps.push_back({a.path, 0, (uint64_t)unit * (1 + s.draw(4)) * 1024, ""});
    int nl = s.small(3);
    for (int j = 0; j < nl; j++) {
      FMap m{(s.chance(1, 5) ? ROOT "/var/lib/" : ROOT "/usr/lib/") + fmt("lib%d.so", (int)s.draw(nlibs)) + (p.odd_paths && s.chance(1, 6) ? " v2" : ""), s.draw(3) * 4096, (uint64_t)unit * (1 + s.draw(2)) * 1024, ""};
      if (huge && s.chance(1, 3)) m.off = (1ull << 32) * (1 + s.draw(40)) + m.off;
      if (huge && s.chance(1, 3)) m.len = (1ull << 31) * (1 + s.draw(8)) + 4096 * s.draw(4);
      bool dup = false; for (auto& x : a.maps) if (x.path == m.path && x.off == m.off && x.len == m.len) dup = true;
      if (!dup || (p.dup_maps && s.chance(1, 2))) a.maps.push_back(m);
    }
    if (p.junk_maps && s.chance(1, 2)) {
      static const char* junk[] = {"7ffc00000000-7ffc00100000 rw-p 00000000 00:00 0                          [stack]\n", "7f1200000000-7f1200400000 rw-p 00000000 00:00 0 \n", "7f1300000000-7f1300400000 r--s 00000000 00:05 99                        /usr/lib/old.so (deleted)\n", "7f1500000000-7f1500400000 rw-s 00000000 00:01 7                         anon_inode:[perf_event]\n", "garbage line\n"};
      int n = 1 + (int)s.draw(3); for (int j = 0; j < n; j++) a.maps.insert(a.maps.begin() + s.draw(a.maps.size() + 1), FMap{"", 0, 0, junk[s.draw(5)]});
    }
    apps.push_back(a); mkfile(a.path, 8192);
    for (auto& m : a.maps) if (!m.path.empty()) mkfile(m.path, 8192);
  }
  conf.cycle = std::vector<int>{20, 2, 10, 7, 3, 60}[s.weighted({6, 1, 2, 2, 1, 1})];
  conf.usecorr = !s.chance(1, 3);
  int full = p.small_sizes ? s.weighted({1, 2, 2}) : s.weighted({8, 1, 1}); conf.minsize = full == 0 ? (s.chance(1, 4) ? 1 + (int)s.draw(1024000) : 1000) : full == 1 ? 1024000 * (1 + (int)s.draw(5)) + (int)s.draw(3) - 1 : 3500000;
  conf.dopredict = p.predict; conf.memfree = 100; if (p.check_ra) { conf.memfree = 100; conf.memtotal = 100; }
  if (p.procs) { conf.procs = (int)s.draw(p.procs + 1); conf.sort = (int)s.draw(4); }
  bool vm = p.algo == 0 || ((p.algo == 2 || p.algo == 3) && !s.chance(1, 2)); conf.algo = vm ? "VOMM" : "Markov";
  if (p.filters) {
    if (s.chance(1, 3)) conf.exeprefix = {std::string("!") + ROOT "/usr/sbin/", ROOT "/usr/", std::string("!") + ROOT "/opt"};
    if (s.chance(1, 3)) conf.mapprefix = {ROOT "/usr/", std::string("!/")};
  }
  bool preset = p.preset && s.chance(1, crowd ? 2 : 4);   // what an earlier daemon lifetime left, with numbers of any size
  if (!p.autosave && !p.reload && !p.reload_all && s.chance(1, 12)) { conf.cycle = std::vector<int>{3600, 100000, 1001, 86401}[s.draw(4)]; conf.autosave = 1000000000; }
  if (p.autosave) conf.autosave = std::vector<int>{conf.cycle * 3 + 1, 37, 3600}[s.draw(3)];
  ref.conf = conf;
  static std::map<std::string, int> noahead; noahead.clear(); if (p.untouched && s.chance(1, 2)) for (auto& a : apps) for (auto& m : a.maps) if (s.chance(1, 2)) noahead[m.path] = EINVAL; if (p.untouched) W.ra_errno = &noahead;
  if (preset) {
    Model& m = ref.disk; m.time = s.chance(1, 10) ? 0 : s.chance(1, 3) ? s.range64(0, 1500000000) : s.range(0, 200000); std::vector<std::string> ps;
    for (auto& a : apps) {
      if (s.chance(1, 3)) continue; MExe& e = m.exes[a.path]; e.time = m.time ? (long long)s.draw(m.time + 1) : 0; ps.push_back(a.path); std::set<MMap> ms;
      for (auto& x : a.maps) if (!x.path.empty() && prefix_accepts(x.path, conf.mapprefix)) ms.insert({x.path, x.off, x.len}); e.maps.assign(ms.begin(), ms.end()); for (auto& q : ms) { m.maps.insert(q); m.map_update[q] = 0; }
    }
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = i + 1; j < ps.size(); j++) {
      MMk k; k.time = (long long)s.draw(std::min(m.exes[ps[i]].time, m.exes[ps[j]].time) + 1); bool big = s.chance(1, 2);
      for (int x = 0; x < 4; x++) { for (int y = 0; y < 4; y++) if (y != x) { k.w[x][y] = s.chance(1, 3) ? 0 : (int)s.draw(big ? 100000000 : 300); k.w[x][x] += k.w[x][y]; } k.ttl[x] = k.w[x][x] ? strtod(fmt("%.6g", s.chance(1, 3) ? s.draw(30000000) / 7.0 : s.draw(1000) / 3.0).c_str(), 0) : 0; }
      m.put_mk(ps[i], ps[j], k);
    }
    if (s.chance(2, 3)) { int b = 20; std::function<void(VNode&, int)> grow = [&](VNode& n, int d) { if (d >= 5 || ps.empty()) return; int k = d ? s.small(3) : 1 + s.small((int)ps.size()); for (int i = 0; i < k && b > 0; i++) { VNode& x = n.ch[ps[s.draw(ps.size())]]; if (x.count) continue; b--; x.count = 1 + (int)s.draw(s.chance(1, 3) ? 2000000 : 5); grow(x, d + 1); } }; grow(m.vomm, 0); }
    ref.has_disk = true; write_file(realpath_of(STATEF), emit_state(m)); c.note(fmt("an earlier daemon left a model of %zu programs, time %lld", m.exes.size(), m.time));
  }
  meminfo_put(MemInfo());
  int nextpid = 5000000 + (int)s.draw(1000);
  int lives = 1 + s.small(p.max_lives - 1);
  c.note(fmt("conf: %s", printable(conf.text(), 800).c_str()));
  for (auto& a : apps) { std::string m; for (auto& x : a.maps) m += !x.raw.empty() ? std::string(" <other line>") : fmt(" %s@%llu+%llu", printable(x.path).c_str(), (unsigned long long)x.off, (unsigned long long)x.len); c.note("app " + printable(a.path) + ":" + m); }

  // environment events; executed now (act == nullptr) or scripted at a virtual time
  int64_t at_us = 0; bool scripted = false;
  bool untouched = p.untouched;
  auto put = [&](std::function<void()> f) { if (!scripted) f(); else if (untouched) lo.acts.push_back({at_us, [f] { untouched_check(); f(); g_fs = fs_snap(); }}); else lo.acts.push_back({at_us, f}); };
  std::set<std::string> denied, really_gone, notdir;
  int newk = 0, newn = 0;     // launches of known / new programs that the next scan will see
  auto start = [&](int i, int pid = 0) {
    const App& a = apps[i]; bool ex = pid > 0; if (!ex) pid = nextpid++;
    bool alive = false; for (auto& q : ref.procs) if (q.second.exe == a.path) alive = true;
    if (p.vomm_exact && !alive && ref.accepted_exe(a.path)) {
      bool known = ref.exes.count(a.path);
      if (known) { if (ref.exes[a.path].running) {} else if (newk >= 1) return; else newk++; }
      else { if (newn >= 1) return; newn++; }
    }
    if (ref.gone.count(a.path) || (p.deny && really_gone.count(a.path))) { ref.gone.erase(a.path); really_gone.erase(a.path); bool nd = notdir.erase(a.path) && !denied.count(a.path); std::string f = a.path; put([f, nd] { if (nd && W.stat_errno) W.stat_errno->erase(f); rm_rf(realpath_of(f)); mkfile(f, 8192); }); }
    FProc fp; fp.pid = pid; fp.exe = a.path; fp.maps = a.maps; put([fp] { proc_put(fp); });
    ref.procs[pid] = {a.path, a.maps}; st.events++;
    c.note(fmt("  t=%.1f %s %s pid %d", at_us / 1e6, ex ? "exec" : "start", printable(a.path).c_str(), pid));
  };
  auto stop = [&](int k) {
    if (ref.procs.empty()) return; auto it = ref.procs.begin(); std::advance(it, k % ref.procs.size());
    int pid = it->first; std::string e = it->second.exe;
    // a program awaiting examination through several processes: end all of them, so that the outcome is determined
    std::vector<int> ps{pid}; if (ref.pend_new.count(e) || !s.chance(1, 4)) { ps.clear(); for (auto& q : ref.procs) if (q.second.exe == e) ps.push_back(q.first); }
    for (int q : ps) { ref.procs.erase(q); put([q] { proc_del(q); }); c.note(fmt("  t=%.1f stop pid %d (%s)", at_us / 1e6, q, printable(e).c_str())); }
    st.events++;
  };
  auto reload = [&]() {
    Conf n = ref.conf;
    int what = s.weighted({2, 2, 2, 2, 1, 1});
    if (p.reload) { if (what == 0) n.cycle = std::vector<int>{20, 2, 10, 7, 3, 60}[s.draw(6)]; if (what == 5) n.minsize = n.minsize == 1000 ? 3500000 : 1000;
      if (what == 4 && p.filters) n.exeprefix = n.exeprefix.empty() ? std::vector<std::string>{std::string("!") + ROOT "/opt"} : std::vector<std::string>{};
      if (p.algo == 3 && what == 3) n.algo = n.vomm() ? "Markov" : "VOMM"; }
    if (p.reload_all) for (int i = s.small(3); i-- > 0;) switch (s.draw(12)) {
      case 0: n.mapprefix = n.mapprefix.empty() ? std::vector<std::string>{ROOT "/usr/", std::string("!/")} : std::vector<std::string>{}; break; case 1: n.usecorr = !n.usecorr; break;
      case 2: if (n.memtotal == 100) { n.memtotal = -100; n.memfree = n.memcached = n.membuffers = 0; } else { n.memtotal = n.memfree = 100; } break;
      case 3: n.procs = std::vector<int>{0, 30, 1, 3, -1}[s.draw(5)]; break; case 4: n.sort = (int)s.draw(4); break; case 5: n.minsize = std::vector<int>{2000000, 1000, 3500000, 1, 0}[s.draw(5)]; break; case 6: n.autosave = 100000000 + (int)s.draw(1000); break;
      case 7: n.cycle = std::vector<int>{20, 2, 10, 7, 60}[s.draw(5)]; break; case 8: n.doscan = !n.doscan; break; case 9: if (p.predict) n.dopredict = !n.dopredict; break; case 10: if (p.algo == 3) n.algo = n.vomm() ? "Markov" : "VOMM"; break;
      case 11: n.exeprefix = n.exeprefix.empty() ? std::vector<std::string>{ROOT "/usr/bin", std::string("!") + ROOT "/"} : std::vector<std::string>{}; break; }
    if (p.switches) { if (what == 1) n.doscan = !n.doscan; if (what == 2 && p.predict) n.dopredict = !n.dopredict; }
    bool broken = p.reload && s.chance(1, 8);
    std::string t = p.reload_all ? n.text(s) : n.text(); int how = broken && p.reload_all ? 1 + (int)s.draw(7) : broken;
    switch (how) { case 1: t += "\n[model]\ncycle = banana\n"; break; case 2: t += "\n[system]\nautosave = 12x\n"; break; case 3: t += "\n[system]\ndopredict = maybe\n"; break; case 4: t += "\nno key here\n"; break; case 5: t = "cycle = 7\n" + t; break; case 6: t += "\n[system]\nsortstrategy =\n"; break; }
    put([t, how] { if (how == 7) rmfile(CONFF); else write_file(realpath_of(CONFF), t); raise(SIGHUP); });
    if (p.reload_all) c.note("    " + printable(t, 700));
    c.note(fmt("  t=%.1f reload%s cycle=%d minsize=%d doscan=%d dopredict=%d algo=%s", at_us / 1e6, broken ? " (broken file)" : "", n.cycle, n.minsize, n.doscan, n.dopredict, n.algo.c_str()));
    ref.set_conf(broken ? ref.conf : n);
    st.events++;
  };
  auto probe = [&](const char* when) {
    if (!p.probe || (p.cmp.vomm && ref.vomm_ambiguous && !p.cmp.exes)) return;
    Model want = ref.snapshot(); CmpOpts o = p.cmp; if (ref.vomm_ambiguous) o.vomm = false;
    if (!p.check_state) for (auto& k : want.mk) k.second.state = -1;
    std::map<std::string, bool> run; for (auto& e : ref.exes) run[e.first] = e.second.running;
    bool cr = p.check_running; double t = at_us / 1e6; std::string w = when; st.probes++;
    bool sums = p.check_sums && ref.vomm_ambiguous && !ref.removed;
    lo.acts.push_back({at_us, [want, o, t, w, run, cr, sums] {
      Model got = dump_sut(); std::string d = diff_models(want, got, o);
      if (d.empty() && sums) {
        auto a = vsum(want.vomm), b = vsum(got.vomm);
        if (a.first != b.first) d = fmt("sum of all sequence counts %ld vs %ld", a.first, b.first); else if (b.second > 5) d = fmt("a sequence is %d launches long", b.second);
      }
      if (!d.empty()) child_fail("model-" + w, fmt("at virtual time %.1f s (%s): expected vs actual: ", t, w.c_str()) + d + "\n--- expected\n" + model_str(want).substr(0, 5000) + "--- actual\n" + model_str(got).substr(0, 5000));
      if (cr) {
        GHashTableIter it; gpointer k, v; g_hash_table_iter_init(&it, state->exes); std::map<std::string, int> listed;
        for (GSList* l = state->running_exes; l; l = l->next) listed[((preload_exe_t*)l->data)->path]++;
        while (g_hash_table_iter_next(&it, &k, &v)) {
          auto* e = (preload_exe_t*)v; auto r = run.find(e->path); if (r == run.end()) continue;
          if ((bool)exe_is_running(e) != r->second) child_fail("running", fmt("at %.1f s: %s known as %s, expected %s", t, printable(e->path).c_str(), exe_is_running(e) ? "running" : "not running", r->second ? "running" : "not running"));
          if (listed[e->path] != (r->second ? 1 : 0)) child_fail("running-set", fmt("at %.1f s: %s appears %d times in the running set, expected %d", t, printable(e->path).c_str(), listed[e->path], r->second ? 1 : 0));
        }
      }
    }});
  };
  auto ra_probe = [&](int64_t t_us) {
    if (!p.check_ra) return;
    std::map<std::string, Ranges> must, may; bool any = false; long kbs = 0;
    for (auto& q : ref.predicted) if (q.second < 1e-9) {
      may[printable(q.first.path, 4000)].add(q.first.off, q.first.off + q.first.len); kbs += (long)(q.first.len / 1024 + 1);
      if (q.second < -1e-9 && !ref.gone.count(q.first.path)) { must[printable(q.first.path, 4000)].add(q.first.off, q.first.off + q.first.len); any = true; }
    }
    if (ref.vomm_ambiguous) must.clear(), may.clear();
    if (any) st.predictions++;
    bool amb = ref.vomm_ambiguous, has = ref.has_prediction; if (kbs > 6000000) must.clear();
    lo.acts.push_back({t_us, [must, may, amb, has, t_us] {
      size_t end; auto v = log_reqs(g_ra_from, &end); g_ra_from = end; auto got = cover(v);
      if (!has && !v.empty()) child_fail("prefetch-unexpected", fmt("round at %.1f s: nothing may be prefetched, but %s was", t_us / 1e6, v[0].path.c_str()));
      if (amb || !has) return;
      for (auto& m : must) if (!got[m.first].contains(m.second)) child_fail("prefetch-missing", fmt("round at %.1f s: %s: needed%s, requested%s", t_us / 1e6, m.first.c_str(), m.second.str().c_str(), got[m.first].str().c_str()));
      for (auto& g : got) if (!g.second.r.empty()) { auto it = may.find(g.first); if (it == may.end() || !it->second.contains(g.second)) child_fail("prefetch-extra", fmt("round at %.1f s: %s: requested%s, needed%s", t_us / 1e6, g.first.c_str(), g.second.str().c_str(), it == may.end() ? " nothing" : it->second.str().c_str())); }
    }});
  };
  auto window = [&](bool a) {
    int n = (int)s.draw(p.max_events + 1); if (crowd) n += (int)s.draw(25);
    for (int i = 0; i < n; i++) {
      int w = s.weighted({6, 4, p.saves ? p.save_weight : 0, p.deletes ? 2 : 0, p.battery ? p.switch_weight : 0, (p.reload || p.switches) ? p.switch_weight : 0, p.dumps ? p.dump_weight : 0, p.execs ? 1 : 0});
      at_us += 1000;
      switch (w) {
        case 0: {
          int i0 = (int)s.draw(apps.size());
          if (!s.chance(1, 4)) for (size_t q = 0; q < apps.size(); q++) { bool alive = false; for (auto& z : ref.procs) if (z.second.exe == apps[i0].path) alive = true; if (!alive) break; i0 = (i0 + 1) % (int)apps.size(); }
          start(i0); break;
        }
        case 1: stop((int)s.draw(8)); break;
        case 2: {
          static const int errs[] = {ENOSPC, EACCES, EROFS, EIO, EMFILE}; int er = errs[s.draw(5)]; bool fails = !p.untouched && s.chance(1, 8);
          ref.save(fails); st.saves++; put([fails, er] { if (fails) { W.wopen_prefix = STATEF; W.wopen_prefix_errno = er; } raise(SIGUSR2); });
          if (fails) { at_us += 500; put([] { W.wopen_prefix = nullptr; }); c.note(fmt("  t=%.1f save requested while none can be written (error %d)", at_us / 1e6, er)); break; }
          if (p.check_saves && !ref.vomm_ambiguous) {
            Model want = ref.disk; bool has = ref.has_disk; CmpOpts o = p.cmp; double t = at_us / 1e6;
            at_us += 500;
            put([want, has, o, t] {
              std::string txt = slurp(STATEF), err; Model got; if (txt.empty() && !has) return;
              if (!has) child_fail("file-unexpected", fmt("at %.1f s: a state file was written though nothing was learned", t));
              if (!parse_state(txt, got, err)) child_fail("file-malformed", err);
              std::string d = diff_models(want, got, o); if (!d.empty()) child_fail("saved-model", fmt("file after the save requested at %.1f s: expected vs actual: ", t) + d + "\n--- expected\n" + model_str(want).substr(0, 5000) + "--- actual\n" + model_str(got).substr(0, 5000));
            });
          } c.note(fmt("  t=%.1f save requested", at_us / 1e6)); break;
        }
        case 3: {
          int i2 = (int)s.draw(apps.size()); std::string f = apps[i2].path; bool g = ref.gone.count(f);
          if (p.deny) {
            int how = s.weighted({3, 2, 2, 1, 1, 1, 2}); std::string t; static const int errs[] = {EACCES, EIO, ESTALE, ELOOP, ENOMEM, EPERM, ETIMEDOUT, ENAMETOOLONG};
            if (how == 1) {        // cannot be examined (for a while)
              bool off = denied.count(f); int e = errs[s.draw(8)]; if (off) denied.erase(f); else denied.insert(f);
              put([f, e, off] { if (!W.stat_errno) W.stat_errno = new std::map<std::string, int>(); if (off) W.stat_errno->erase(f); else (*W.stat_errno)[f] = e; });
              if (off) { if (really_gone.count(f)) ref.gone.insert(f); } else ref.gone.erase(f);
              t = off ? "can be examined again" : fmt("cannot be examined (error %d)", e);
            } else if (denied.count(f)) break;
            else if (how == 2) { if (g) break; put([f] { rmfile(f); mkfile(f, 123); }); t = "replaced"; }
            else if (how == 3) { if (g) break; put([f] { rmfile(f); mkdir(realpath_of(f).c_str(), 0755); }); ref.gone.insert(f); really_gone.insert(f); t = "replaced by a directory"; }
            else if (how == 4) { if (g) break; put([f] { rmfile(f); (void)!symlink("/nonexistent/x", realpath_of(f).c_str()); }); ref.gone.insert(f); really_gone.insert(f); t = "replaced by a dangling link"; }
            else if (how == 5) { if (g) break; put([f] { rmfile(f); mkfile(f + "~", 9000); (void)!symlink((f.substr(f.rfind('/') + 1) + "~").c_str(), realpath_of(f).c_str()); }); t = "replaced by a link to a file"; }
            else if (how == 6) { if (g) break; int z = (int)s.draw(4); put([f, z] { std::string r = realpath_of(f); if (z == 0) (void)!link(r.c_str(), (r + "~l").c_str()); if (z == 1) { rmfile(f); mkfile(f, 0); } if (z == 2) chmod(r.c_str(), 0); if (z == 3) { rmfile(f); mkfile(f, 1); struct timespec ts[2] = {{100, 0}, {100, 0}}; utimensat(AT_FDCWD, r.c_str(), ts, 0); } }); t = std::vector<const char*>{"has a second name", "replaced by an empty file", "without permissions", "replaced by an old file"}[z]; }
            else if (g) { ref.gone.erase(f); really_gone.erase(f); notdir.erase(f); put([f] { if (W.stat_errno) W.stat_errno->erase(f); rm_rf(realpath_of(f)); mkfile(f, 8192); }); t = "restored"; }
            else if (s.chance(1, 4)) { ref.gone.insert(f); really_gone.insert(f); notdir.insert(f); put([f] { rmfile(f); if (!W.stat_errno) W.stat_errno = new std::map<std::string, int>(); (*W.stat_errno)[f] = ENOTDIR; }); t = "deleted, its directory replaced by a file"; }
            else { ref.gone.insert(f); really_gone.insert(f); put([f] { rmfile(f); }); t = "deleted"; }
            c.note(fmt("  t=%.1f file of %s %s", at_us / 1e6, printable(f).c_str(), t.c_str())); st.events++; break;
          } std::string real = realpath_of(f);
          if (g) { ref.gone.erase(f); put([f] { mkfile(f, 8192); }); } else { ref.gone.insert(f); put([f] { rmfile(f); }); }
          c.note(fmt("  t=%.1f file of %s %s", at_us / 1e6, printable(f).c_str(), g ? "restored" : "deleted")); st.events++; break;
        }
        case 4: {
          int b = (int)s.draw(10); bool on = ref.batteries.count(b);
          const char* off = std::vector<const char*>{"Charging", "Full", "Not charging", "Unknown", nullptr}[s.draw(5)];
          if (on) { ref.batteries.erase(b); put([b, off] { battery_put(b, off); }); } else { ref.batteries.insert(b); const char* how = std::vector<const char*>{"Discharging", "Discharging\t", "Discharging \n"}[s.weighted({6, 1, 1})]; put([b, how] { battery_put(b, how); }); }
          c.note(fmt("  t=%.1f BAT%d %s", at_us / 1e6, b, on ? "not discharging" : "discharging")); st.events++; break;
        }
        case 5: reload(); break;
        case 6: {
          if (!p.check_report) { put([] { raise(SIGUSR1); }); break; }
          Model want = ref.snapshot(); int run = 0; for (auto& e : ref.exes) run += e.second.running; Conf k = ref.conf; double t = at_us / 1e6; int n = 1 + s.small(2); st.reports++; c.note(fmt("  t=%.1f report requested%s", t, n > 1 ? " repeatedly" : ""));
          put([n] { g_rep_at = log_from(0).size(); g_rep_m = dump_sut(); g_rep_ino = state_ino(); for (int i = 0; i < n; i++) raise(SIGUSR1); }); at_us += 500;
          put([want, run, k, t] {
            Report r = parse_report(log_from(g_rep_at)); std::string d = diff_report(r, want, run, k); if (!d.empty()) child_fail("report", fmt("report requested at %.1f s: ", t) + d);
            CmpOpts o; o.tol = 0; d = diff_models(g_rep_m, dump_sut(), o); if (!d.empty()) child_fail("report-effect", fmt("the report at %.1f s changed what is known: ", t) + d); if (state_ino() != g_rep_ino) child_fail("report-effect", fmt("the report at %.1f s made the state be saved", t));
          }); break;
        }
        case 7: {   // a process becomes another program
          if (ref.procs.empty()) break; auto it = ref.procs.begin(); std::advance(it, s.draw(8) % ref.procs.size());
          int pid = it->first, to = (int)s.draw(apps.size());
          if (ref.pend_new.count(it->second.exe) || it->second.exe == apps[to].path) break;
          start(to, pid); break;
        }
      }
    }
    (void)a;
  };
  for (int life = 0; life < lives; life++) {
    scripted = false; lo = LifeOpts(); at_us = 0;
    // changes while the daemon is down
    newk = newn = 0;
    int pre = s.small(3); for (int i = 0; i < pre; i++) { if (s.chance(1, 3)) stop((int)s.draw(8)); else start((int)s.draw(apps.size())); }
    if (p.vomm_exact && ref.has_disk) { // at most one known program running at load, so that the order of launches is determined
      int n = 0; std::set<std::string> seen;
      for (auto it = ref.procs.begin(); it != ref.procs.end();) {
        bool rm = ref.disk.exes.count(it->second.exe) && !seen.count(it->second.exe) && n >= 1 && ref.accepted_exe(it->second.exe);
        if (!rm && ref.disk.exes.count(it->second.exe) && seen.insert(it->second.exe).second && ref.accepted_exe(it->second.exe)) n++;
        if (rm) { proc_del(it->first); it = ref.procs.erase(it); } else ++it;
      }
    }
    if (p.vomm_exact) { // and at most one unknown one
      std::string first; for (auto it = ref.procs.begin(); it != ref.procs.end();) {
        bool known = ref.has_disk && ref.disk.exes.count(it->second.exe);
        if (!known && ref.accepted_exe(it->second.exe)) { if (first.empty()) first = it->second.exe; else if (first != it->second.exe) { proc_del(it->first); it = ref.procs.erase(it); continue; } }
        ++it;
      }
    }
    write_file(realpath_of(CONFF), ref.conf.text());
    c.note(fmt("life %d (state file %s)", life, ref.has_disk ? "present" : "absent"));
    ref.load(); if (life) st.restarts++;
    std::set<std::string> denied_at_start = denied, notdir_at_start = notdir;
    scripted = true;
    int64_t t = 0; int cycles = crowd ? 2 + (int)s.draw(4) : p.min_cycles + (s.chance(2, 3) ? (int)s.draw(p.max_cycles - p.min_cycles + 1) : s.small(p.max_cycles - p.min_cycles)); bool stopped = false;
    int stopat = s.chance(1, 4) ? (int)s.draw(cycles) : -1;
    for (int k = 0; k < cycles && !stopped; k++) {
      newk = newn = 0; // the scan of this tick sees what was started so far
      if (!ref.batteries.empty()) st.batt++; else { if (!ref.conf.doscan) st.noscan++; if (!ref.conf.dopredict) st.nopredict++; }
      int d1 = ref.tick(); st.cycles++; ra_probe(t * 1000000 + 400000);
      newk = newn = 0;
      at_us = t * 1000000 + 500000;
      if (p.windowA) window(true);
      if (k == stopat) { lo.end_us = at_us + 10000; stopped = true; break; }
      t += d1; int d2 = ref.tick2();
      at_us = t * 1000000 + 500000;
      probe("after-update");
      window(false);
      at_us += 5000; if (p.probe && p.saves) probe("after-events");
      t += d2;
    }
    if (!stopped) lo.end_us = t * 1000000 - 100000;
    ref.save();
    c.note(fmt("  t=%.1f stop daemon", lo.end_us / 1e6));
    { auto dn = denied_at_start, nd = notdir_at_start; lo.before_main = [dn, nd, untouched] { log_reset(); g_ra_from = 0; if (untouched) { g_fs = fs_snap(); W.on_wopen = wopen_hook; W.log_io = true; } W.stat_errno = new std::map<std::string, int>(); for (auto& x : nd) (*W.stat_errno)[x] = ENOTDIR; for (auto& x : dn) (*W.stat_errno)[x] = EACCES; }; }
    lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"};
    if (untouched) lo.at_exit = untouched_check;
    if (!p.debug_free && s.chance(1, p.check_report ? 2 : 6)) { lo.args.push_back("-V"); lo.args.push_back(fmt("%d", (int)s.draw(11))); }
    if (p.debug_free) { lo.args.push_back("-V"); lo.args.push_back(s.chance(1, 2) ? "9" : "10"); }
    Life l = run_life(lo); require_clean(c, l);
    if (p.check_file && ref.has_disk) {
      Model got; std::string err, txt = slurp(STATEF);
      if (!parse_state(txt, got, err)) c.fail("file-malformed", "state file after exit: " + err + "\n" + txt.substr(0, 2000));
      CmpOpts o = p.cmp; if (ref.vomm_ambiguous) o.vomm = false;
      std::string d = diff_models(ref.disk, got, o);
      if (!d.empty()) c.fail("saved-model", fmt("after life %d: expected vs saved: ", life) + d + "\n--- expected\n" + model_str(ref.disk).substr(0, 5000) + "--- saved\n" + model_str(got).substr(0, 5000));
      if (ref.vomm_ambiguous) { ref.disk.vomm = got.vomm; }
    } else if (ref.has_disk && ref.vomm_ambiguous) {
      Model got; std::string err; if (parse_state(slurp(STATEF), got, err)) ref.disk.vomm = got.vomm;
    }
  }
  st.removed = (int)ref.removed; st.launches = ref.launches; st.transitions = ref.transitions; st.ambiguous = ref.vomm_ambiguous;
  st.exes = (int)ref.exes.size(); st.pairs = (int)ref.pairs.size(); st.bads = (int)ref.bad.size();
  return st;
}
