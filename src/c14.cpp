// C14: the configuration means what the documentation says, and reloads are atomic.
#include "gen.h"
#include <sys/stat.h>
#ifndef REPO_DIR
#define REPO_DIR "/repo"
#endif
// Documented defaults (preload.conf.in and the manual)
static Conf documented() { Conf k; k.cycle = 20; k.usecorr = true; k.minsize = 2000000; k.memtotal = -10; k.memfree = 50; k.memcached = 0; k.membuffers = 50; k.doscan = k.dopredict = true; k.autosave = 3600; k.algo = "VOMM"; k.procs = 30; k.sort = 3; return k; }
static Conf gen_values(Src& s) {
  Conf k = documented(); auto some = [&] { return s.chance(1, 3); }; static const int odd[] = {0, 1, -1, 2147483647, -2147483647, 100, 1000000, -100};
  auto num = [&](int lo, int hi) { return s.chance(1, 5) ? odd[s.draw(8)] : s.range(lo, hi); };
  bool gm = !s.chance(1, 5), gs = !s.chance(1, 5);
  if (gm) { if (some()) k.cycle = num(2, 1000); if (some()) k.usecorr = false; if (some()) k.minsize = num(0, 100000000); if (some()) k.memtotal = num(-100, 100); if (some()) k.memfree = num(-100, 100); if (some()) k.memcached = num(-100, 100); if (some()) k.membuffers = num(-100, 100); }
  if (!gs) return k;
  if (some()) k.doscan = false; if (some()) k.dopredict = false; if (some()) k.autosave = num(1, 100000); if (some()) k.procs = num(0, 64); if (some()) k.sort = (int)s.draw(4); if (some()) k.algo = "Markov";
  static const char* items[] = {"/usr/", "/lib", "!/", "!/usr/sbin/", "/", "!/lib/modules", "/var/cache/", "/opt/a b", "!/d\xc3\xa9j\xc3\xa0/", "!!/x", "/usr/lib/#x", "/a=b", "[x]"};
  auto lst = [&](std::vector<std::string>& v) { int n = s.chance(1, 10) ? s.range(7, 40) : s.small(6); for (int i = 0; i < n; i++) v.push_back(items[s.draw(13)]); }; if (some()) lst(k.mapprefix); if (some()) lst(k.exeprefix); return k;
}
static std::vector<std::string> strv(char** p) { std::vector<std::string> v; while (p && *p) v.push_back(*p++); return v; }
static std::string join(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + ";"; return o; }
// settings in force, as key -> value
static std::map<std::string, std::string> in_force() {
  auto B = [](int b) { return std::string(b ? "true" : "false"); }; auto I = [](int i) { return fmt("%d", i); };
  std::string alg = preload_is_vomm_algorithm() ? "VOMM" : "Markov";
  return {{"cycle", I(conf->model.cycle)}, {"usecorrelation", B(conf->model.usecorrelation)}, {"minsize", I(conf->model.minsize)}, {"memtotal", I(conf->model.memtotal)}, {"memfree", I(conf->model.memfree)}, {"memcached", I(conf->model.memcached)}, {"membuffers", I(conf->model.membuffers)},
          {"doscan", B(conf->system.doscan)}, {"dopredict", B(conf->system.dopredict)}, {"autosave", I(conf->system.autosave)}, {"mapprefix", join(strv(conf->system.mapprefix))}, {"exeprefix", join(strv(conf->system.exeprefix))}, {"algorithm", alg}, {"processes", I(conf->system.maxprocs)}, {"sortstrategy", I(conf->system.sortstrategy)}};
}
static std::map<std::string, std::string> wanted(const Conf& k) {
  auto B = [](bool b) { return std::string(b ? "true" : "false"); }; auto I = [](int i) { return fmt("%d", i); };
  return {{"cycle", I(k.cycle)}, {"usecorrelation", B(k.usecorr)}, {"minsize", I(k.minsize)}, {"memtotal", I(k.memtotal)}, {"memfree", I(k.memfree)}, {"memcached", I(k.memcached)}, {"membuffers", I(k.membuffers)}, {"doscan", B(k.doscan)}, {"dopredict", B(k.dopredict)}, {"autosave", I(k.autosave)},
          {"mapprefix", join(k.mapprefix)}, {"exeprefix", join(k.exeprefix)}, {"algorithm", k.vomm() ? "VOMM" : "Markov"}, {"processes", I(k.procs)}, {"sortstrategy", I(k.sort)}};
}
static void same(Ctx& c, const std::map<std::string, std::string>& want, const std::string& what) { auto got = in_force(); for (auto& w : want) if (got[w.first] != w.second) c.fail("setting-" + w.first, fmt("%s is %s, expected %s; ", w.first.c_str(), printable(got[w.first]).c_str(), printable(w.second).c_str()) + what); }
// a broken variation of a text; empty result means: no readable file
static std::map<std::string, int> oerr;
static std::string broken(Src& s, std::string t, std::string& why, bool& nofile) {
  static const char* ints[] = {"cycle", "minsize", "memtotal", "memfree", "memcached", "membuffers"}; static const char* sints[] = {"autosave", "processes", "sortstrategy"}; static const char* badi[] = {"banana", "12x", "99999999999", "-99999999999", "1.5", "0x10", "", "ten", "+", "--3"}; static const char* badb[] = {"maybe", "yes", "2", "", "truefalse", "no", "TRUE1"};
  nofile = false; oerr.clear();
  switch (s.draw(9)) {
    case 0: { const char* k = ints[s.draw(6)]; const char* v = badi[s.draw(10)]; why = fmt("model.%s = %s", k, v); return t + "\n[model]\n" + fmt("%s = %s\n", k, v); }
    case 1: { const char* k = sints[s.draw(3)]; const char* v = badi[s.draw(10)]; why = fmt("system.%s = %s", k, v); return t + "\n[system]\n" + fmt("%s = %s\n", k, v); }
    case 2: { const char* k = s.chance(1, 2) ? "doscan" : "dopredict"; const char* v = badb[s.draw(7)]; why = fmt("system.%s = %s", k, v); return t + "\n[system]\n" + fmt("%s = %s\n", k, v); }
    case 3: { const char* v = badb[s.draw(7)]; why = fmt("model.usecorrelation = %s", v); return t + "\n[model]\n" + fmt("usecorrelation = %s\n", v); }
    case 4: why = "line without a key"; return t + "\nnothing here\n";
    case 5: why = "key before any section"; return "cycle = 9\n" + t;
    case 6: why = "unclosed section"; return t + "\n[system\ndoscan = true\n";
    case 7: why = "missing file"; nofile = true; return "";
    default: { static const int es[] = {EACCES, EIO, EMFILE, ENOTDIR, ELOOP}; int e = es[s.draw(5)]; oerr[CONFF] = e; W.open_errno = &oerr; why = fmt("unreadable (error %d)", e); return t; }
  }
}
static void put_file(const std::string& t, bool nofile) { if (nofile) rmfile(CONFF); else write_file(realpath_of(CONFF), t); }
static bool complained() { std::string t = read_file("/proc/self/fd/2"); return t.find("failed loading conf") != std::string::npos || t.find("CRITICAL") != std::string::npos; }

// every key set or left out, written in any way; one or more loads, good and bad ones mixed
static void loads(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); auto cur = in_force(); Conf none = documented(); { auto w = wanted(none); preload_conf_load("", TRUE); same(c, w, "without a configuration file"); cur = w; }
  int n = 1 + s.small(6), good = 0, bad = 0; bool first = true; auto defaults = wanted(none); int changed = 0;
  for (int i = 0; i < n; i++) {
    Conf k = gen_values(s); std::string t = k.text(s), why; bool nofile = false, isbad = !first && s.chance(1, 3); W.open_errno = nullptr;
    if (isbad) { t = broken(s, t, why, nofile); }
    put_file(t, nofile); c.note(fmt("load %d%s:\n", i, isbad ? (" (" + why + ")").c_str() : "") + printable(t, 1500)); fflush(stderr); bool said = complained(); size_t at = read_file("/proc/self/fd/2").size();
    preload_conf_load(CONFF, first ? TRUE : FALSE); (void)said; W.open_errno = nullptr; fflush(stderr);
    if (isbad) { bad++; std::string e = read_file("/proc/self/fd/2"); e = at <= e.size() ? e.substr(at) : e; if (e.find("fail") == std::string::npos && e.find("CRITICAL") == std::string::npos && e.find("WARNING") == std::string::npos) c.fail("not-reported", "a bad configuration file (" + why + ") was not reported"); same(c, cur, "after a file that cannot be used: " + why); }
    else { good++; auto w = wanted(k); same(c, w, "after loading\n" + t); cur = w; for (auto& x : w) if (x.second != defaults[x.first]) changed++; first = false; }
  }
  // the settings are dumped as they are
  c.count(0, good); c.count(1, bad); c.label(bad ? "good and bad files" : "good files"); if (changed >= 2 && good) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
// the shipped file, with its placeholders filled in as the build does
static void template_(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); std::string t = read_file(REPO_DIR "/preload-src/src/config/preload.conf.in"); if (t.empty()) throw CaseSkip{"no shipped file"};
  Conf k = gen_values(s); k.mapprefix = {"/usr/", "/lib", "/var/cache/", "!/"}; k.exeprefix = {"!/usr/sbin/", "!/usr/local/sbin/", "/usr/", "!/"}; auto w = wanted(k); Conf d = documented(); int n = 0;
  std::map<std::string, std::string> v = w; v["prediction_algorithm"] = "\"" + k.algo + "\""; v["maxprocs"] = w["processes"]; v.erase("processes"); v.erase("algorithm"); (void)d;
  for (auto& e : v) { std::string q = "default_" + e.first, o; size_t p = 0, f; while ((f = t.find(q, p)) != std::string::npos) { char nx = f + q.size() < t.size() ? t[f + q.size()] : 0; o += t.substr(p, f - p); if (isalnum((unsigned char)nx) || nx == '_') o += q; else { o += e.second; n++; } p = f + q.size(); } t = o + t.substr(p); }
  write_file(realpath_of(CONFF), t); preload_conf_load(CONFF, TRUE); same(c, w, "after loading the shipped file with these values"); c.note(fmt("%d placeholders filled", n)); for (auto& e : w) c.note(e.first + " = " + printable(e.second)); if (n >= 12) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 800)); }
}
// a daemon started with a bad file must not run; with a good one it must
static void start(Src& s, Ctx& c) {
  Conf k; k.cycle = 20; k.dopredict = false; std::string t = k.text(s), why = "good file"; bool nofile = false, bad = s.chance(3, 4); W.fake_proc = true; W.record_ra = true; meminfo_put(MemInfo()); if (bad) t = broken(s, t, why, nofile);
  put_file(t, nofile); c.note("start with " + why + ":\n" + printable(t, 1500)); FProc f; f.pid = 5000001; f.exe = ROOT "/usr/bin/x"; f.maps = {{ROOT "/usr/bin/x", 0, 8000000, ""}}; mkfile(f.exe); proc_put(f);
  LifeOpts lo; lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"}; lo.end_us = 45500000; Life l = run_life(lo);
  if (bad) { if (l.why.size() || l.sig) { if (l.sig && l.sig != 5 && l.sig != 6) c.fail("start-crash", l.why + "\n" + l.log); } if (l.exit_code == 0) c.fail("start-not-fatal", "the daemon ran although its configuration file is bad: " + why + "\n" + l.log.substr(0, 1000)); if (exists(STATEF)) c.fail("start-not-fatal", "a state file was written although the configuration file is bad: " + why); if (l.log.find("fail") == std::string::npos) c.fail("not-reported", "a bad configuration file (" + why + ") was not reported: " + l.log.substr(0, 1000)); c.nontrivial(); }
  else { require_clean(c, l); if (!exists(STATEF)) c.fail("start-good", "no state file after a run with a good configuration file"); }
  c.label(bad ? why.substr(0, 12) : "good"); c.sample(std::string(g_slot->desc).substr(0, 600));
}
// the daemon follows every reload from the next cycle on
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 5; p.max_lives = 2; p.min_cycles = 5; p.max_cycles = 20; p.max_events = 3; p.algo = s.chance(2, 3) ? 3 : 2; p.vomm_exact = s.chance(2, 3); p.check_ra = true; p.reload = p.reload_all = true; p.switch_weight = 4; p.small_sizes = s.chance(1, 3); p.deletes = s.chance(1, 6); p.check_running = true; p.cmp.vomm = p.vomm_exact;
  SimStats st = run_history(s, c, p); c.count(2, st.cycles); c.count(3, st.predictions); std::string d = g_slot->desc; int n = 0; for (size_t q = 0; (q = d.find(" reload", q)) != std::string::npos; q++) n++; c.count(4, n); c.label("daemon"); if (n >= 1 && st.exes >= 1) { c.nontrivial(); c.sample(d.substr(0, 1800)); }
}
// a changed autosave period counts from the next autosave on
static ino_t g_ino; static std::string g_e;
static void autosave(Src& s, Ctx& c) {
  Conf k; k.cycle = 2; k.dopredict = false; k.autosave = 4 + (int)s.draw(40); k.algo = "Markov"; W.fake_proc = true; W.record_ra = true; meminfo_put(MemInfo()); write_file(realpath_of(CONFF), k.text(s)); FProc f; f.pid = 5000001; f.exe = ROOT "/usr/bin/x"; f.maps = {{ROOT "/usr/bin/x", 0, 8000000, ""}}; mkfile(f.exe); proc_put(f);
  c.note(fmt("autosave = %d", k.autosave)); LifeOpts lo; lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"}; int64_t end = 60 + (int64_t)s.draw(200), next = k.autosave; int cur = k.autosave, fired = 0, changes = 0; g_ino = 0;
  for (int64_t t = 1; t < end; t++) {
    bool fire = t == next; if (fire) { next += cur; fired++; }
    lo.acts.push_back({t * 1000000 + 300000, [t, fire] { struct stat st; std::string p = realpath_of(STATEF); ino_t i = ::stat(p.c_str(), &st) ? 0 : st.st_ino; bool saved = i != g_ino; g_ino = i; if (saved != fire) child_fail(saved ? "autosave-extra" : "autosave-missing", fmt("the state was %s at %lld s", saved ? "saved" : "not saved", (long long)t)); }});
    if (s.chance(1, 12)) { bool bad = s.chance(1, 4); int v = s.chance(1, 6) ? 3600 : 4 + (int)s.draw(40); Conf n = k; n.autosave = v; std::string x = n.text(s); if (bad) x += "[model]\ncycle = x\n"; else { cur = v; changes++; } c.note(fmt("t=%lld.5 reload autosave = %d%s", (long long)t, v, bad ? " (broken file)" : "")); lo.acts.push_back({t * 1000000 + 500000, [x] { write_file(realpath_of(CONFF), x); raise(SIGHUP); }}); }
  }
  lo.end_us = end * 1000000 - 100000; Life l = run_life(lo); require_clean(c, l); c.label("autosave"); c.count(5, fired); if (fired >= 2 && changes) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 600)); }
}
CheckDef g_check = {"C14", "loads: two settings or more differ from the defaults; template: twelve placeholders or more filled; start: a bad file; history: a reload and a program known; autosave: two autosaves and a changed period",
  {{"loads", loads, 4000, 120000}, {"template", template_, 300, 3000}, {"start", start, 400, 8000}, {"history", history, 900, 25000}, {"autosave", autosave, 300, 8000}}, {"good files", "bad files", "rounds", "rounds with predictions", "reloads", "autosaves"}};
