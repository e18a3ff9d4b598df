#include "engine.h"
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>

Slot* g_slot;
std::string g_scratch;
int g_jobs = 8;
extern void world_case_init();    // world.cpp: opens the scratch root, resets interposers
extern bool world_harness_io;     // world.cpp: interposers off for harness I/O

std::string fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  char* p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
  std::string s(p ? p : "", n > 0 ? n : 0); free(p); return s;
}
uint64_t hash64(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
std::string read_file(const std::string& path, bool* ok) {
  std::string out; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC, 0);
  if (ok) *ok = fd >= 0;
  if (fd < 0) return out;
  char buf[65536]; ssize_t n;
  while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) out.append(buf, n);
  syscall(SYS_close, fd); return out;
}
bool write_file(const std::string& path, const std::string& d) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < d.size()) { ssize_t n = syscall(SYS_write, fd, d.data() + o, d.size() - o); if (n <= 0) break; o += n; }
  syscall(SYS_close, fd); return o == d.size();
}
static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { ::remove(p); return 0; }
void rm_rf(const std::string& path) { nftw(path.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS); }
std::string printable(const std::string& s, size_t max) {
  std::string o;
  for (unsigned char c : s) {
    if (o.size() >= max) { o += "..."; break; }
    if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\\') o += "\\\\";
    else if (c < 32 || c > 126) o += fmt("\\x%02x", c); else o += (char)c;
  }
  return o;
}

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
void Src::seed(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x1234567); s0 = splitmix(x); s1 = splitmix(x); if (!s0 && !s1) s1 = 1; }
uint64_t Src::next() {
  uint64_t a = s0, b = s1; s0 = b; a ^= a << 23; s1 = a ^ b ^ (a >> 18) ^ (b >> 5); return s1 + b;
}
uint64_t Src::draw(uint64_t n) {
  if (n <= 1) { if (n == 0) n = 1; }
  uint64_t v;
  if (replay) {
    v = pos < tape.size() ? tape[pos] : 0; if (v >= n) v %= n;
  } else {
    v = next() % n; tape.push_back(v);
    if (g_slot) { if (g_slot->tape_len < 120000) g_slot->tape[g_slot->tape_len++] = v; else throw CaseSkip{"tape too long"}; }
  }
  pos++;
  return v;
}
int Src::small(int max) {
  if (max <= 0) return 0;
  uint64_t r = draw(4);
  if (r == 0) return (int)draw(std::min(max, 2) + 1);
  if (r == 1) return (int)draw(std::min(max, 5) + 1);
  return (int)draw(max + 1);
}
int Src::weighted(std::initializer_list<int> w) {
  int t = 0; for (int x : w) t += x;
  int v = (int)draw(t), i = 0;
  for (int x : w) { if (v < x) return i; v -= x; i++; }
  return 0;
}

void Ctx::label(const std::string& s) {
  for (uint32_t i = 0; i < g_slot->nlabels; i++) if (s == g_slot->labels[i]) return;
  if (g_slot->nlabels < 96) { snprintf(g_slot->labels[g_slot->nlabels++], 48, "%s", s.c_str()); }
}
void Ctx::sample(const std::string& s) { snprintf(g_slot->sample, sizeof g_slot->sample, "%s", s.c_str()); }
void Ctx::note(const std::string& s) {
  if (verbose) { std::string t = s + "\n"; syscall(SYS_write, 1, t.data(), t.size()); }
  if (g_slot->desc_len + 4 >= sizeof g_slot->desc) return;
  size_t n = std::min(s.size(), sizeof g_slot->desc - g_slot->desc_len - 3);
  memcpy(g_slot->desc + g_slot->desc_len, s.data(), n); g_slot->desc_len += n; g_slot->desc[g_slot->desc_len++] = '\n';
  g_slot->desc[g_slot->desc_len] = 0;
}

static Slot* new_slot() { return (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void reset_slot(Slot* s) {
  s->status = 0; s->nontrivial = 0; s->nlabels = 0; s->sig[0] = s->msg[0] = s->sample[0] = s->desc[0] = 0; s->desc_len = 0; s->tape_len = 0;
  memset(s->counters, 0, sizeof s->counters);
}
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Outcome { int status; std::string sig, msg; };   // 1 pass 2 fail 3 skip 4 timeout
static uint64_t g_seed = 1;

// Runs one case in a forked child. The result is in the slot.
static Outcome run_case(Slot* slot, const std::string& dir, int mode, long idx, const std::vector<uint64_t>* tape, bool verbose = false) {
  reset_slot(slot);
  g_slot = slot;
  rm_rf(dir); mkdir(dir.c_str(), 0777); chmod(dir.c_str(), 0777);
  std::string errf = dir + ".stderr";
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int fd = (int)syscall(SYS_openat, AT_FDCWD, errf.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (!verbose) { dup2(fd, 2); dup2(fd, 1); } else dup2(fd, 2);
    int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0); dup2(nul, 0);
    if (fd > 2) syscall(SYS_close, fd);
    if (nul > 2) syscall(SYS_close, nul);
    g_scratch = dir;
    world_case_init();
    Src src; src.seed(g_seed * 1000003ull + mode, (uint64_t)idx);
    if (tape) { src.replay = true; src.tape = *tape; }
    Ctx c(src); c.verbose = verbose;
    try { g_check.modes[mode].fn(src, c); slot->status = 1; }
    catch (CaseFail& f) {
      snprintf(slot->sig, sizeof slot->sig, "%s", f.sig.c_str()); snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str()); slot->status = 2;
    } catch (CaseSkip& s) { snprintf(slot->msg, sizeof slot->msg, "%s", s.why.c_str()); slot->status = 3; }
    syscall(SYS_exit_group, 0);
  }
  setpgid(pid, pid);
  sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD);
  int st = 0; bool done = false; double end = now_s() + g_check.case_timeout_s;
  while (!done) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) { done = true; break; }
    double left = end - now_s();
    if (left <= 0) break;
    struct timespec ts = {(time_t)left, (long)((left - (long)left) * 1e9)};
    if (ts.tv_sec > 1) ts.tv_sec = 1;
    sigtimedwait(&chld, nullptr, &ts);
  }
  kill(-pid, SIGKILL);
  if (!done) { kill(pid, SIGKILL); waitpid(pid, &st, 0); }
  while (waitpid(-1, nullptr, WNOHANG) > 0) {}
  Outcome o;
  if (!done) { o.status = 2; o.sig = "hang"; o.msg = fmt("case did not finish within %d s", g_check.case_timeout_s); }
  else if (slot->status == 1 || slot->status == 2 || slot->status == 3) { o.status = slot->status; o.sig = slot->sig; o.msg = slot->msg; }
  else {
    o.status = 2;
    if (WIFSIGNALED(st)) { o.sig = "crash"; o.msg = fmt("process under test killed by signal %d", WTERMSIG(st)); }
    else { o.sig = "crash"; o.msg = fmt("process under test ended with exit status %d", WEXITSTATUS(st)); }
  }
  if (o.status == 2) {
    std::string e = read_file(errf);
    size_t p = e.find("ERROR: AddressSanitizer");
    if (p != std::string::npos) { e = e.substr(p); if (e.size() > 3000) e.resize(3000); }
    else if (e.size() > 3000) e = e.substr(e.size() - 3000);
    o.msg += "\n--- output of the process under test ---\n" + e;
  }
  return o;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char)c;
  }
  return o + "\"";
}

struct WorkerOut {          // shared
  volatile long done; volatile long passed, skipped, nontrivial, failed; volatile int stop;
};

int main(int argc, char** argv) {
  std::string tier = "quick", out, replay, base; double scale = 1, limit = 600; long only = -1; int onlymode = -1;
  std::vector<std::string> known;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = nx(); else if (a == "--seed") g_seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--jobs") g_jobs = atoi(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str()); else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--case") only = atol(nx().c_str()); else if (a == "--mode") onlymode = atoi(nx().c_str());
    else if (a == "--known") known.push_back(nx());
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  unsetenv("DBUS_SESSION_BUS_ADDRESS"); unsetenv("HOSTNAME"); setenv("LC_ALL", "C.UTF-8", 1); setenv("TZ", "UTC", 1);
  unsetenv("G_MESSAGES_DEBUG"); unsetenv("G_DEBUG");
  base = fmt("/dev/shm/vp.%d", (int)getpid());
  mkdir(base.c_str(), 0777); chmod(base.c_str(), 0777);
  if (symlink("/proc/self/fd/900", "/tmp/.vp-root") != 0 && errno != EEXIST) { fprintf(stderr, "cannot create /tmp/.vp-root\n"); return 2; }
  sigset_t chld; sigemptyset(&chld); sigaddset(&chld, SIGCHLD); sigprocmask(SIG_BLOCK, &chld, nullptr);
  double t0 = now_s();

  auto cleanup = [&]() { rm_rf(base); };

  if (!replay.empty() || only >= 0) {
    Slot* s = new_slot();
    std::vector<uint64_t> tape; int mode = onlymode < 0 ? 0 : onlymode; bool have = false;
    if (!replay.empty()) {
      std::string t = read_file(replay);
      size_t p = t.find("\"mode\":"); if (p != std::string::npos) mode = atoi(t.c_str() + p + 7);
      p = t.find("\"tape\":"); if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
      const char* q = strchr(t.c_str() + p, '[') + 1;
      while (*q && *q != ']') { char* e; uint64_t v = strtoull(q, &e, 10); if (e == q) { q++; continue; } tape.push_back(v); q = e; }
      have = true;
    }
    Outcome o = run_case(s, base + "/r", mode, only, have ? &tape : nullptr, true);
    printf("mode %s status=%s sig=%s\n%s\n", g_check.modes[mode].name, o.status == 1 ? "pass" : o.status == 2 ? "FAIL" : "skip", o.sig.c_str(), o.msg.c_str());
    cleanup();
    return o.status == 2 ? 1 : 0;
  }

  // schedule
  struct Item { int mode; long n; };
  std::vector<Item> items; long total = 0;
  for (size_t m = 0; m < g_check.modes.size(); m++) {
    if (onlymode >= 0 && (int)m != onlymode) continue;
    long n = (long)((tier == "thorough" ? g_check.modes[m].thorough : g_check.modes[m].quick) * scale);
    if (n < 1) n = 1;
    items.push_back({(int)m, n}); total += n;
  }
  int J = g_jobs;
  WorkerOut* w = (WorkerOut*)mmap(nullptr, sizeof(WorkerOut) * J, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)w, 0, sizeof(WorkerOut) * J);
  std::vector<pid_t> pids;
  for (int j = 0; j < J; j++) {
    pid_t p = fork();
    if (p == 0) {
      Slot* s = new_slot();
      std::string dir = base + fmt("/w%d", j);
      std::map<std::string, long> labels; std::set<uint64_t> distinct; std::map<std::string, long> skips;
      std::vector<long> counters(16, 0); std::vector<std::string> samples; std::string fails;
      long k = 0; bool stop = false;
      // interleave modes so that a time limit cuts all of them evenly
      std::vector<long> nexti(items.size(), j);
      bool any = true;
      std::map<std::string, int> nfail; std::map<std::string, long> unst;
      while (any && !stop) {
        any = false;
        for (size_t m = 0; m < items.size() && !stop; m++) {
          // run a slice of each mode proportional to its size
          long slice = std::max(1L, items[m].n / 64 / J);
          for (long q = 0; q < slice && nexti[m] < items[m].n; q++) {
            any = true;
            long i = nexti[m]; nexti[m] += J;
            Outcome o = run_case(s, dir, items[m].mode, i, nullptr);
            k++; w[j].done = k;
            for (uint32_t a = 0; a < s->nlabels; a++) labels[std::string(g_check.modes[items[m].mode].name) + ":" + s->labels[a]]++;
            for (int a = 0; a < 16; a++) counters[a] += s->counters[a];
            if (o.status == 3) { w[j].skipped++; skips[o.msg]++; }
            if (o.status == 1) w[j].passed++;
            if (o.status != 3 && s->nontrivial) {
              w[j].nontrivial++;
              uint64_t h = hash64(s->tape, s->tape_len * 8, 77 + items[m].mode);
              bool fresh = distinct.insert(h).second;
              if (fresh && s->sample[0] && (samples.size() < 2 || (samples.size() < 4 && k % 97 == 0))) samples.push_back(std::string("[") + g_check.modes[items[m].mode].name + fmt(" #%ld] ", i) + s->sample);
            }
            if (o.status == 2) {
              std::string key = o.sig; w[j].failed++;
              bool kn = std::find(known.begin(), known.end(), o.sig) != known.end(), slow = o.sig == "hang" || o.sig == "deadlock";
              std::vector<uint64_t> tp(s->tape, s->tape + s->tape_len); int reps = 0;
              // stop everything if it happens each time; else it is unstable and the exploration goes on
              if (!kn) { if (slow) reps = 5; else for (; reps < 5; reps++) { Outcome o2 = run_case(s, dir, items[m].mode, i, &tp); if (o2.status != 2 || o2.sig != key) break; } }
              if (reps && reps < 5) unst[key]++;
              if ((nfail[key]++ < 2 || reps == 5) && tp.size() < 119999) {
                std::string t; for (uint64_t a : tp) t += fmt("%llu ", (unsigned long long)a);
                write_file(base + fmt("/fail.%d.%d", j, (int)w[j].failed), fmt("%d %ld %d\n%s\n%s\n%s", items[m].mode, i, reps, key.c_str(), t.c_str(), o.msg.c_str()));
              }
              if (reps == 5) for (int x = 0; x < J; x++) w[x].stop = 1;
            }
            if (w[j].stop || now_s() - t0 > limit) { stop = true; break; }
          }
        }
      }
      std::string r;
      for (auto& l : labels) r += fmt("L %ld %s\n", l.second, l.first.c_str());
      for (auto& l : skips) r += fmt("K %ld %s\n", l.second, printable(l.first).c_str());
      for (auto& l : unst) r += fmt("U %ld %s\n", l.second, l.first.c_str());
      for (auto d : distinct) r += fmt("D %llx\n", (unsigned long long)d);
      for (int a = 0; a < 16; a++) r += fmt("C %d %ld\n", a, counters[a]);
      for (auto& x : samples) r += "S " + jstr(x) + "\n";
      write_file(base + fmt("/res.%d", j), r);
      rm_rf(dir);
      _exit(0);
    }
    pids.push_back(p);
  }
  bool broken = false;
  for (pid_t p : pids) { int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker ended with status %x\n", st); broken = true; } }
  if (broken) { cleanup(); return 2; }
  // merge
  std::map<std::string, long> labels, skips, unst; std::set<std::string> distinct; std::vector<long> counters(16, 0); std::vector<std::string> samples;
  long done = 0, passed = 0, skipped = 0, nontriv = 0, failed = 0;
  for (int j = 0; j < J; j++) {
    done += w[j].done; passed += w[j].passed; skipped += w[j].skipped; nontriv += w[j].nontrivial; failed += w[j].failed;
    std::string r = read_file(base + fmt("/res.%d", j)); size_t p = 0;
    while (p < r.size()) {
      size_t e = r.find('\n', p); std::string l = r.substr(p, e - p); p = e + 1;
      if (l.size() < 3) continue;
      if (l[0] == 'L' || l[0] == 'K' || l[0] == 'U') { size_t sp = l.find(' ', 2); (l[0] == 'L' ? labels : l[0] == 'K' ? skips : unst)[l.substr(sp + 1)] += atol(l.c_str() + 2); }
      else if (l[0] == 'D') distinct.insert(l.substr(2));
      else if (l[0] == 'C') { int a; long v; if (sscanf(l.c_str() + 2, "%d %ld", &a, &v) == 2) counters[a] += v; }
      else if (l[0] == 'S' && samples.size() < 8) samples.push_back(l.substr(2));
    }
  }
  // failures: per signature one that happens each time (lowest mode/index), else the most reproducible one
  struct F { int mode; long idx; std::string sig, msg; std::vector<uint64_t> tape; int reps; };
  std::map<std::string, std::vector<F>> cands;
  for (int j = 0; j < J; j++) for (int n = 1; n <= (int)w[j].failed; n++) {
    bool ok; std::string t = read_file(base + fmt("/fail.%d.%d", j, n), &ok); if (!ok) continue;
    F f; size_t a = t.find('\n'); sscanf(t.c_str(), "%d %ld %d", &f.mode, &f.idx, &f.reps);
    size_t b = t.find('\n', a + 1); f.sig = t.substr(a + 1, b - a - 1);
    size_t c = t.find('\n', b + 1); std::string tp = t.substr(b + 1, c - b - 1); f.msg = t.substr(c + 1);
    const char* q = tp.c_str(); char* e; while (true) { uint64_t v = strtoull(q, &e, 10); if (e == q) break; f.tape.push_back(v); q = e; }
    cands[f.sig].push_back(f);
  }
  double tgen = now_s() - t0;
  std::string failjson; int unstable = 0; double tshrink = now_s();
  Slot* s = new_slot();
  for (auto& kv : cands) {
    std::stable_sort(kv.second.begin(), kv.second.end(), [](const F& a, const F& b) { return a.reps != b.reps ? a.reps > b.reps : std::make_pair(a.mode, a.idx) < std::make_pair(b.mode, b.idx); });
    bool kn = std::find(known.begin(), known.end(), kv.first) != known.end();
    int rep = 0; std::string lastmsg; F* pick = nullptr;
    for (size_t q = 0; q < kv.second.size() && q < 6 && !pick; q++) {
      F& x = kv.second[q]; rep = 0; lastmsg = x.msg;
      for (int i = 0; i < 3; i++) { Outcome o = run_case(s, base + "/r", x.mode, x.idx, &x.tape); if (o.status == 2 && o.sig == x.sig) { rep++; lastmsg = o.msg; } else break; }
      if (rep == 3) pick = &x;
    }
    // failed each of six times, but only while other cases ran; or many different cases failed more than once: it depends on timing, and is not shrunk
    bool timing = false;
    if (!pick && (kv.second[0].reps == 5 || unst[kv.first] >= 10)) { pick = &kv.second[0]; timing = true; lastmsg = pick->msg; }
    F& f = pick ? *pick : kv.second[0];
    if (!pick) {
      unstable++; printf("UNSTABLE %s mode=%s case=%ld: %s\n", f.sig.c_str(), g_check.modes[f.mode].name, f.idx, f.msg.substr(0, 1500).c_str());
      continue;
    }
    if (timing) lastmsg = "(depends on timing) " + lastmsg;
    // shrink
    std::vector<uint64_t> best = f.tape; int evals = 0; double ts = now_s();
    bool slow = f.sig == "hang" || f.sig == "deadlock" || timing;
    auto budget = [&]() { return evals < 3000 && now_s() - ts < (slow ? 0 : kn ? 5 : 45) && now_s() - tshrink < 150; };
    auto tryt = [&](const std::vector<uint64_t>& t) { evals++; Outcome o = run_case(s, base + "/r", f.mode, f.idx, &t); if (o.status == 2 && o.sig == f.sig) { best = t; lastmsg = o.msg; return true; } return false; };
    bool progress = true;
    while (progress && budget()) {
      progress = false;
      for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && budget(); len = len > 1 ? len / 2 : 0) {
        for (size_t p = 0; p + len <= best.size() && budget();) {
          std::vector<uint64_t> t(best); t.erase(t.begin() + p, t.begin() + p + len);
          if (tryt(t)) progress = true; else p += len;
        }
        if (len <= 1) break;
      }
      for (size_t len = std::min<size_t>(8, best.size()); len >= 1 && budget(); len /= 2)
        for (size_t p = 0; p + len <= best.size() && budget(); p += len) {
          std::vector<uint64_t> t(best); bool z = true;
          for (size_t q = p; q < p + len; q++) { if (t[q]) z = false; t[q] = 0; }
          if (!z && tryt(t)) progress = true;
        }
      for (size_t p = 0; p < best.size() && budget(); p++) {
        uint64_t lo = 0;
        for (int it = 0; it < 10 && best[p] > lo && budget(); it++) {
          std::vector<uint64_t> t(best); t[p] = lo + (best[p] - lo) / 2; if (t[p] == best[p]) break;
          if (tryt(t)) progress = true; else lo = t[p] + 1;
        }
      }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
    int conf = 0; std::string desc;
    if (best == f.tape) conf = 2;
    for (int i = conf; i < 3; i++) { Outcome o = run_case(s, base + "/r", f.mode, f.idx, &best); if (o.status == 2 && o.sig == f.sig) { conf++; lastmsg = o.msg; desc.assign(s->desc, s->desc_len); } }
    if (conf < 3 && best != f.tape) { best = f.tape; run_case(s, base + "/r", f.mode, f.idx, &best); desc.assign(s->desc, s->desc_len); }
    std::string tj; for (size_t i = 0; i < best.size(); i++) tj += fmt("%s%llu", i ? "," : "", (unsigned long long)best[i]);
    failjson += fmt("%s{\"sig\": %s, \"known\": %s, \"mode\": %d, \"mode_name\": %s, \"case\": %ld, \"shrink_evals\": %d, \"message\": %s, \"description\": %s, \"tape\": [%s]}",
                    failjson.empty() ? "" : ",\n", jstr(f.sig).c_str(), kn ? "true" : "false", f.mode, jstr(g_check.modes[f.mode].name).c_str(), f.idx, evals, jstr(lastmsg).c_str(), jstr(desc).c_str(), tj.c_str());
  }
  std::string j = "{\n";
  j += fmt("\"id\": %s, \"tier\": %s, \"seed\": %llu,\n", jstr(g_check.id).c_str(), jstr(tier).c_str(), (unsigned long long)g_seed);
  j += fmt("\"rule\": %s,\n", jstr(g_check.rule).c_str());
  j += fmt("\"planned\": %ld, \"evaluations\": %ld, \"passed\": %ld, \"skipped\": %ld, \"failed\": %ld, \"nontrivial\": %ld, \"distinct_nontrivial\": %zu, \"unstable\": %d, \"gen_s\": %.2f,\n",
           total, done, passed, skipped, failed, nontriv, distinct.size(), unstable, tgen);
  j += "\"labels\": {"; bool first = true; for (auto& l : labels) { j += (first ? "" : ", ") + jstr(l.first) + fmt(": %ld", l.second); first = false; } j += "},\n";
  j += "\"skips\": {"; first = true; for (auto& l : skips) { j += (first ? "" : ", ") + jstr(l.first) + fmt(": %ld", l.second); first = false; } j += "},\n";
  j += "\"counters\": {"; first = true;
  for (size_t a = 0; a < g_check.counter_names.size() && a < 16; a++) { j += (first ? "" : ", ") + jstr(g_check.counter_names[a]) + fmt(": %ld", counters[a]); first = false; } j += "},\n";
  j += "\"samples\": ["; for (size_t i = 0; i < samples.size(); i++) j += (i ? ",\n " : "") + samples[i]; j += "],\n";
  j += "\"failures\": [" + failjson + "]\n}\n";
  if (!out.empty()) write_file(out, j); else printf("%s", j.c_str());
  cleanup();
  return cands.empty() ? 0 : 1;
}
