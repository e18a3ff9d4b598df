// C18: resources used depend on what is known, not on how long the daemon has run.
#include "gen.h"
#include <sys/stat.h>
#include <sanitizer/allocator_interface.h>
struct Meas { size_t bytes; int fds, kids, maps; };
extern std::string g_scratch;
static int count_maps() { std::string m = read_file("/proc/self/maps"); int n = 0; for (size_t p = 0; (p = m.find(g_scratch, p)) != std::string::npos; p++) n++; return n; }   // parts of files that are mapped
static Meas measure() { size_t b = __sanitizer_get_current_allocated_bytes(); return {b, count_fds(), count_children(), count_maps()}; }
static Meas g_m[64]; static int g_n;
// Growth: three consecutive windows of equal length, each wholly above the one before. Bounded fluctuation cannot do that.
static std::string growth(const std::vector<Meas>& v, size_t warm, size_t w) {
  auto mm = [&](size_t from, auto f) { long lo = 1l << 60, hi = -1; for (size_t i = from; i < from + w; i++) { lo = std::min(lo, (long)f(v[i])); hi = std::max(hi, (long)f(v[i])); } return std::make_pair(lo, hi); };
  auto test = [&](const char* n, auto f) -> std::string { auto a = mm(warm, f), b = mm(warm + w, f), c = mm(warm + 2 * w, f); if (a.second < b.first && b.second < c.first) return fmt("%s grow: %ld..%ld, then %ld..%ld, then %ld..%ld", n, a.first, a.second, b.first, b.second, c.first, c.second); return ""; };
  if (v.size() < warm + 3 * w) return "";
  std::string r = test("open descriptors", [](const Meas& m) { return m.fds; }); if (r.empty()) r = test("mapped files", [](const Meas& m) { return m.maps; }); if (r.empty()) r = test("child processes", [](const Meas& m) { return m.kids; }); if (r.empty()) r = test("allocated bytes", [](const Meas& m) { return (long)m.bytes; }); return r;
}
static std::map<std::string, int> wo, we, re, ro, fs_, noahead;
static const int WARM = 13, WIN = 5, BLOCKS = WARM + 3 * WIN;
// the same block of rounds and events over and over again
static void blocks(Src& s, Ctx& c) {
  W.fake_proc = true; W.record_ra = true; W.wopen_errno = &wo; W.write_errno = &we; W.rename_errno = &re; W.open_errno = &ro; W.fstat_errno = &fs_; fs_.clear(); meminfo_put(MemInfo()); wo.clear(); we.clear(); re.clear(); ro.clear();
  Conf k; k.cycle = 20; k.minsize = s.chance(1, 3) ? 3500000 : 1000; k.memtotal = k.memfree = 100; k.procs = s.chance(1, 3) ? 2 : 0; k.sort = (int)s.draw(4); k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; k.autosave = s.chance(1, 2) ? 47 : 100000; if (s.chance(1, 3)) k.exeprefix = {ROOT "/usr/", std::string("!") + ROOT "/opt"}; if (s.chance(1, 3)) k.mapprefix = {"!" ROOT "/var/", ROOT "/usr/"};
  std::string good = k.text(); write_file(realpath_of(CONFF), good); bool logf = s.chance(1, 2); c.note("conf: " + printable(good, 800) + (logf ? " logging to a file" : ""));
  struct App { std::string path; std::vector<FMap> maps; }; std::vector<App> apps; int na = 2 + s.small(3);
  for (int i = 0; i < na; i++) { App a; a.path = ROOT + std::string(s.chance(1, 6) ? "/opt/a" : "/usr/bin/a") + fmt("%d", i); a.maps.push_back({a.path, 0, 1024000ull * (1 + s.draw(5)), ""}); int n = s.small(3); for (int j = 0; j < n; j++) a.maps.push_back({ROOT "/usr/lib/" + fmt("l%d", (int)s.draw(5)), 4096 * s.draw(3), 1024000ull * (1 + s.draw(2)), ""}); apps.push_back(a); mkfile(a.path); for (auto& m : a.maps) mkfile(m.path); }
  auto put_app = [&](int i) { FProc f; f.pid = 5000001 + i; f.exe = apps[i].path; f.maps = apps[i].maps; return f; };
  std::vector<int> init; for (int i = 0; i < na; i++) if (s.chance(1, 2)) init.push_back(i); for (int i : init) proc_put(put_app(i));
  noahead.clear(); if (s.chance(1, 2)) { static const int nos[] = {EINVAL, ENOSYS, EOPNOTSUPP}; for (auto& a : apps) for (auto& m : a.maps) if (s.chance(1, 2)) noahead[m.path] = nos[s.draw(3)]; c.note(fmt("readahead is not supported for %zu files", noahead.size())); } W.ra_errno = &noahead;
  // one block
  int rounds = 1 + s.small(4); int64_t len = rounds * 20; struct Ev { int64_t t; std::function<void()> f; }; std::vector<Ev> ev; int ne = 1 + s.small(8); bool fault = false; std::set<std::string> kinds;
  for (int e = 0; e < ne; e++) {
    int64_t t = (int64_t)s.draw(len - 1) * 1000000 + 200000 + 1000 * e; int i = (int)s.draw(na); std::string what;
    switch (s.weighted({5, 4, 2, 3, 3, 2, 2, 2, 1, 2, 1, 1})) {
      case 0: { FProc f = put_app(i); ev.push_back({t, [f] { proc_put(f); }}); what = fmt("start %d", i); break; }
      case 1: { int pid = 5000001 + i; ev.push_back({t, [pid] { proc_del(pid); }}); what = fmt("stop %d", i); break; }
      case 2: ev.push_back({t, [] { raise(SIGUSR2); }}); what = "save"; break;
      case 3: { // failing save: opening, writing or renaming fails
        int how = (int)s.draw(3); static const int es[] = {ENOSPC, EIO, EACCES, EDQUOT, EROFS}; int er = es[s.draw(5)]; std::string tmp = std::string(STATEF) + ".tmp"; fault = true;
        ev.push_back({t, [how, er, tmp] { (how == 0 ? wo : how == 1 ? we : re)[tmp] = er; raise(SIGUSR2); }}); ev.push_back({t + 20000, [] { wo.erase(std::string(STATEF) + ".tmp"); we.clear(); re.clear(); }}); what = fmt("failing save (%s, error %d)", (const char*[]){"open", "write", "rename"}[how], er); break; }
      case 4: ev.push_back({t, [good] { write_file(realpath_of(CONFF), good); raise(SIGHUP); }}); what = "reload"; break;
      case 5: { int how = (int)s.draw(4); fault = true; std::string bk = std::vector<const char*>{"autosave", "sortstrategy", "processes", "maxprocs"}[s.draw(4)]; ev.push_back({t, [how, good, bk] { if (how == 0) rmfile(CONFF); else if (how == 1) write_file(realpath_of(CONFF), good + "\nx\n"); else if (how == 2) write_file(realpath_of(CONFF), good + "[system]\nmapprefix = /a;/b\nexeprefix = !/a;/b/c;/d\nprediction_algorithm = Markov\n" + bk + " = x\n"); else ro[CONFF] = EACCES; raise(SIGHUP); }}); ev.push_back({t + 20000, [good] { ro.erase(CONFF); write_file(realpath_of(CONFF), good); }}); what = fmt("failing reload %d", how); break; }
      case 6: ev.push_back({t, [] { raise(SIGUSR1); }}); what = "status"; break;
      case 7: { int b = (int)s.draw(10); bool on = s.chance(1, 2); ev.push_back({t, [b, on] { battery_put(b, on ? "Discharging" : "Full"); }}); what = on ? "battery" : "mains"; break; }
      case 8: { std::string f = apps[i].path; ev.push_back({t, [f] { rmfile(f); }}); what = fmt("delete file of %d", i); break; }
      case 9: if (logf) { fault = true; ev.push_back({t, [] { wo[ROOT "/log"] = EACCES; raise(SIGHUP); }}); ev.push_back({t + 20000, [] { wo.erase(ROOT "/log"); }}); what = "failing log reopen"; } else what = "nothing"; break;
      case 10: { int j = 1 + (int)s.draw(na); bool alt = s.chance(1, 2); Conf n = k; if (alt) n.algo = k.vomm() ? "Markov" : "VOMM"; else n.exeprefix.push_back("!" + apps[j - 1].path); std::string x = n.text(); ev.push_back({t, [x] { write_file(realpath_of(CONFF), x); raise(SIGHUP); }}); what = alt ? "reload with the other algorithm" : "reload with another filter"; break; }
      default: { std::string f = apps[i].maps.back().path; int er = s.chance(1, 2) ? EACCES : EMFILE, st = s.chance(1, 3); fault = true; ev.push_back({t, [f, er, st] { (st ? fs_ : ro)[f] = er; }}); ev.push_back({t + 20000000, [f, st] { (st ? fs_ : ro).erase(f); }}); what = st ? "section without a position" : "unreadable section"; }
    }
    kinds.insert(what.substr(0, 14)); c.note(fmt("  t=%.3f %s", t / 1e6, what.c_str()));
  }
  c.note(fmt("  block of %lld s, running at its start: %zu of %d programs", (long long)len, init.size(), na));
  // back to the beginning
  int64_t tr = len * 1000000 - 300000; bool resave = s.chance(1, 2);
  ev.push_back({tr, [&] { for (int i = 0; i < na; i++) { mkfile(apps[i].path); bool in = std::find(init.begin(), init.end(), i) != init.end(); if (in) proc_put(put_app(i)); else proc_del(5000001 + i); } for (int b = 0; b < 10; b++) battery_put(b, nullptr); ro.clear(); fs_.clear(); wo.clear(); we.clear(); re.clear(); write_file(realpath_of(CONFF), good); raise(SIGHUP); }});
  if (resave) ev.push_back({tr + 20000, [] { raise(SIGUSR2); }});
  LifeOpts lo; g_n = 0; for (int b = 0; b < BLOCKS; b++) { int64_t t0 = (int64_t)b * len * 1000000; for (auto& e : ev) lo.acts.push_back({t0 + e.t, e.f}); lo.acts.push_back({t0 + len * 1000000 - 100000, [b] { ((Meas*)(g_slot->desc + sizeof g_slot->desc - 8192))[b] = measure(); }}); }
  lo.end_us = (int64_t)BLOCKS * len * 1000000; lo.args = {"-c", CONFF, "-s", STATEF, "-l", logf ? ROOT "/log" : "", "-f", "-n", "0"}; Life l = run_life(lo); l.log += slurp(ROOT "/log").substr(0, 1000000); require_clean(c, l);
  std::vector<Meas> v; for (int b = 0; b < BLOCKS; b++) v.push_back(((Meas*)(g_slot->desc + sizeof g_slot->desc - 8192))[b]);
  std::string g = growth(v, WARM, WIN); if (!g.empty()) { std::string all; for (auto& m : v) all += fmt(" %zu/%d/%d/%d", m.bytes, m.fds, m.kids, m.maps); c.fail(g.substr(0, g.find(' ')) == "open" ? "descriptors-grow" : g.substr(0, 6) == "mapped" ? "mappings-grow" : g.substr(0, 5) == "child" ? "children-grow" : "memory-grows", g + fmt(" over blocks of %d; bytes/descriptors/children/mappings after each block:", WIN) + all); }
  for (auto& m : v) if (m.kids) c.fail("children-left", "prefetch workers exist between rounds");
  c.count(0, BLOCKS); if (fault) c.label("with failures"); for (auto& x : kinds) c.label(x.substr(0, 7)); if (kinds.size() >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// what was learned about sequences is bounded by the set of programs
static void count_nodes(const VNode& n, long& k, int& depth, int d = 0) { depth = std::max(depth, d); for (auto& x : n.ch) { k++; count_nodes(x.second, k, depth, d + 1); } }
static void launches(Src& s, Ctx& c) {
  sut_init(); Model m; int n = 1 + s.small(3); if (n > 3) n = 3; std::vector<std::string> ps; std::vector<MMap> ms; MMap q{ROOT "/usr/lib/l", 0, 4096}; m.maps.insert(q); for (int i = 0; i < n; i++) { std::string p = ROOT "/usr/bin/" + fmt("x%d", i); ps.push_back(p); m.exes[p].maps = {q}; } for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m.put_mk(ps[i], ps[j], MMk());
  Conf k; k.algo = "VOMM"; conf_to_sut(k); write_file(realpath_of(STATEF), emit_state(m, &s)); preload_state_load(STATEF); preload_state_prepare_algorithm();
  long full = 0, pw = 1; for (int d = 1; d <= 5; d++) { pw *= n; full += pw; } int per = n == 3 ? 6000 : n == 2 ? 1200 : 100; std::vector<Meas> v; v.reserve(64); long nodes = 0; int depth = 0; bool pred = s.chance(1, 2);
  uint64_t z = s.draw(1ull << 40); int bias = (int)s.draw(4); auto rnd = [&] { z = z * 6364136223846793005ull + 1442695040888963407ull; return (int)(z >> 40); };
  for (int b = 0; b < 12; b++) {
    for (int i = 0; i < per; i++) { int x = rnd() % n; if (bias && rnd() % 4 < bias) x = i % n; vomm_update(sut_exe(ps[x])); if (pred && i % 97 == 0) preload_prophet_predict(nullptr); }
    Meas now = measure(); nodes = 0; depth = 0; Model d = dump_sut(); count_nodes(d.vomm, nodes, depth); if (nodes == full) v.push_back(now); // growth is only judged once every sequence is known
    if (depth > 5) c.fail("sequence-too-long", fmt("a recorded sequence is %d launches long", depth)); if (nodes > full) c.fail("too-many-sequences", fmt("%ld sequences recorded of %d programs, at most %ld are possible", nodes, n, full));
  }
  std::string g = growth(v, 1, 2); bool sat = nodes == full; if (!g.empty() && sat) c.fail("memory-grows", g + fmt(" while all %ld sequences of %d programs are known", nodes, n));
  c.note(fmt("%d programs, %d launches, bias %d: %ld of %ld sequences", n, per * 12, bias, nodes, full)); c.count(1, per * 12); c.label("launches"); if (sat) c.label("saturated"); if (nodes > n) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 300)); }
}
// a process that ends, or turns into a zombie, while it is being examined
static FProc die_p; static int die_at, die_n, die_how;
static void die_open(const char* path) {
  int pid; char rest[16]; if (sscanf(path, "/proc/%d/%15s", &pid, rest) != 2 || pid != die_p.pid || strcmp(rest, "maps") || ++die_n != die_at) return;
  if (die_how == 1) proc_del(pid); else { FProc z = die_p; z.maps.clear(); z.maps_text_set = true; z.maps_text = die_how == 2 ? "" : "7f0000000000-7f0000001000 rw-p 00000000 00:00 0 \n"; proc_put(z); }
}
// one operation over and over again, failing at a given point or fed with a bad file
static void ops(Src& s, Ctx& c) {
  sut_init(); GenOpts o; o.max_exes = 5; o.odd = s.chance(1, 3); o.big = false; Model m = gen_model(s, o); Conf k; k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; k.memtotal = k.memfree = 100; k.sort = (int)s.draw(4); for (auto& e : m.exes) mkfile(e.first); for (auto& q : m.maps) mkfile(q.path);
  std::vector<std::string> run; for (auto& e : m.exes) if (s.chance(1, 3)) run.push_back(e.first); Ref r; load_both(r, m, k, run, &s); std::string text = emit_state(m, &s), what; int op = (int)s.draw(7); std::function<void()> f; bool failing = false;
  noahead.clear(); if (s.chance(1, 3)) { for (auto& q : m.maps) if (s.chance(1, 2)) noahead[q.path] = EINVAL; W.ra_errno = &noahead; W.record_ra = true; }
  if (op == 0) { // save failing at some point
    W.fs_armed = true; W.fs_at = (int)s.draw(10); W.fs_kind = s.chance(1, 3) ? FS_SHORT : FS_ERR; W.fs_err = ENOSPC; W.fs_arg = (long)s.draw(4096); W.fs_sticky = s.chance(1, 2); what = fmt("save with a failure at file operation %d%s", W.fs_at, W.fs_sticky ? " and after" : ""); failing = true; f = [] { W.fs_count = 0; state->dirty = TRUE; preload_state_save(STATEF); };
  } else if (op == 1) { what = "save"; f = [] { state->dirty = TRUE; preload_state_save(STATEF); }; }
  else if (op == 2) { std::string t = k.text(s); int b = (int)s.draw(5); if (b == 1) t += "\n[system]\nautosave = x\n"; if (b == 2) t += "\nbad\n"; if (b == 3) t = "x=1\n" + t; if (b == 4) t += "[model]\nusecorrelation = perhaps\n"; failing = b; what = "reload of " + printable(t, 600); write_file(realpath_of(CONFF), t); f = [] { preload_conf_load(CONFF, FALSE); }; }
  else if (op == 3) { // releasing and loading (a file that cannot be loaded ends the daemon, so only ones that can; including ones of another version, which are ignored)
    std::string t = text; int b = (int)s.draw(3); if (b == 1) { size_t q = t.find('\t'), e = t.find('\t', q + 1); if (q != std::string::npos && e != std::string::npos) t.replace(q + 1, e - q - 1, s.chance(1, 2) ? "0.1" : "99.0"); } if (b == 2) t.clear(); failing = b;
    what = "loading of\n" + printable(t, 1500); write_file(realpath_of(STATEF), t); f = [] { preload_state_free(); preload_state_load(STATEF); preload_state_prepare_algorithm(); };
  } else if (op == 4) { bool pos = s.chance(1, 3); if (pos) { fs_.clear(); for (auto& q : m.maps) if (s.chance(1, 2)) fs_[q.path] = EIO; W.fstat_errno = &fs_; } what = pos ? "prediction with sections whose position cannot be found" : "prediction"; if (pos) f = [] { for (guint i = 0; i < state->maps_arr->len; i++) ((preload_map_t*)g_ptr_array_index(state->maps_arr, i))->block = -1; preload_prophet_predict(nullptr); }; else f = [] { preload_prophet_predict(nullptr); }; }
  else if (op == 6) {
    die_p = FProc(); die_p.pid = 5000777; die_p.exe = ROOT "/usr/bin/passing"; die_p.maps = {{die_p.exe, 0, 8192000, ""}}; int n = s.small(4); for (int j = 0; j < n; j++) die_p.maps.push_back({ROOT "/usr/lib/" + fmt("pl%d", j), 0, 4096 * (1 + s.draw(9)), ""});
    for (auto& q : m.maps) if (s.chance(1, 3)) die_p.maps.push_back({q.path, (uint64_t)q.off, (uint64_t)q.len, ""});
    die_at = (int)s.draw(3); die_how = 1 + (int)s.draw(3); failing = true; if (!die_at) conf->model.minsize = 2000000000; mkfile(die_p.exe);
    what = die_at ? fmt("a process %s at the %s look at it", die_how == 1 ? "ends" : "becomes a zombie", die_at == 1 ? "first" : "second") : std::string("a process too small, seen after every save");
    f = [] { proc_put(die_p); preload_spy_scan(nullptr); die_n = 0; W.on_open = die_open; preload_spy_update_model(nullptr); W.on_open = nullptr; proc_del(die_p.pid); preload_spy_scan(nullptr); preload_spy_update_model(nullptr); state->time += 10; if (!die_at) preload_state_save(STATEF); };
  } else { what = "scan and model update"; f = [] { preload_spy_scan(nullptr); preload_spy_update_model(nullptr); state->time += 10; }; }
  c.note(what); int per = 3; std::vector<Meas> v; v.reserve(64); for (int b = 0; b < 12; b++) { for (int i = 0; i < per; i++) f(); log_reset(); v.push_back(measure()); }
  std::string g = growth(v, 3, 3); if (!g.empty()) c.fail(g.substr(0, 4) == "open" ? "descriptors-grow" : g.substr(0, 6) == "mapped" ? "mappings-grow" : g.substr(0, 5) == "child" ? "children-grow" : "memory-grows", g + " over repetitions of: " + what);
  c.count(2, 36); c.label(fmt("op=%d", op)); if (failing || op != 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 700)); }
}
CheckDef g_check = {"C18", "blocks: two or more kinds of events in the repeated block; launches: sequences longer than one; ops: any operation but an ordinary reload",
  {{"blocks", blocks, 700, 18000}, {"launches", launches, 60, 1200}, {"ops", ops, 2500, 60000}}, {"blocks run", "launches", "operations"}, 60};
