// C15: program and file filters and path recognition follow the documented rules.
#include "gen.h"
#include <sys/stat.h>
static std::string gen_path(Src& s) {
  static const char* dirs[] = {"/usr/bin/", "/usr/sbin/", "/usr/lib/", "/usr/lib/x86_64-linux-gnu/", "/lib/", "/lib64/", "/libexec/", "/opt/a b/", "/home/u/.x/", "/", "/var/cache/", "/usr/local/sbin/", "/u", "/(deleted)/", "/a(deleted)b/"};
  std::string p = dirs[s.draw(15)];
  switch (s.weighted({6, 2, 2, 1, 1, 1})) {
    case 0: p += fmt("f%d.so", (int)s.draw(12)); break;
    case 1: { static const char* n[] = {"with  two spaces", " lead", "trail ", "tab\tx", "per%41cent%", "utf\xc3\xa9\xe2\x82\xac", "back\\slash", "quo\"te'", "x[heap]", "[vdso]", "a;b", "!x", "x(deleted)", "x (deleted) y", "(deleted)", "a:b", "-", "0 1 2", "r-xp 00000000 08:01 12"}; p += n[s.draw(19)]; break; }
    case 2: { int n = 1 + (int)s.draw(12); for (int k = 0; k < n; k++) { int b = 1 + (int)s.draw(255); if (b == '/' || b == '\n') b = '_'; p += (char)b; } p += "z"; break; }
    case 3: { size_t n = s.chance(1, 2) ? 480 + s.draw(50) : 1000 + s.draw(60); if (s.chance(1, 4)) n = 3000; while (p.size() < n) p += p.size() % 90 == 89 ? "/" : "l"; if (p.back() == '/') p.back() = 'q'; break; }
    case 4: p += std::string(1 + s.draw(3), (char)(1 + s.draw(9))) + "x"; break;
    default: p += fmt("n%d/%d", (int)s.draw(3), (int)s.draw(3)); }
  return p;
}
static std::vector<std::string> gen_prefixes(Src& s, const std::vector<std::string>& paths) {
  std::vector<std::string> v; if (s.chance(1, 4)) return v; int n = s.chance(1, 10) ? s.range(7, 40) : s.small(6);
  for (int i = 0; i < n; i++) {
    std::string q; static const char* it[] = {"/usr/", "/lib", "/", "/usr/sbin/", "/usr/local/sbin/", "/opt", "/var/cache/", "/libexec/", "/u"};
    if (!paths.empty() && s.chance(1, 2)) { q = paths[s.draw(paths.size())]; size_t k = s.draw(q.size() + 1); if (s.chance(1, 3)) k = q.size(); q = q.substr(0, k); if (s.chance(1, 8)) q += "x"; } else q = it[s.draw(9)];
    bool bad = q.empty() && s.chance(1, 2); for (char c : q) if (c == ';' || c == '\\' || (unsigned char)c < 33 || (unsigned char)c >= 127) bad = true; if (q.size() > 2 && q[0] == '!') bad = true; if (bad) q = "/usr/";
    v.push_back((s.chance(1, 2) ? "!" : "") + q);
  }
  return v;
}
// nullptr-like result: not considered. Names at the limit of what can be represented may be recorded exactly or not at all.
enum Verdict { NO, YES, EITHER };
static Verdict judge(const std::string& raw, const std::vector<std::string>& pre, std::string& as) {
  as = raw; if (raw.empty() || raw[0] != '/') return NO;
  Verdict v = raw.size() >= 500 ? (raw.size() > 1100 ? NO : EITHER) : YES; size_t p = raw.find(".#prelink#.");
  if (p != std::string::npos) as = raw.substr(0, p); else if (raw.size() >= 10 && raw.compare(raw.size() - 10, 10, " (deleted)") == 0) return NO;
  if (!prefix_accepts(as, pre)) return NO; return v;
}
static std::string decorate(Src& s, std::string p) { switch (s.weighted({10, 1, 1, 1})) { case 1: return p + " (deleted)"; case 2: return p + ".#prelink#." + fmt("%06x", (int)s.draw(1 << 20)); case 3: return p + ".#prelink#.Ab3Xy9 (deleted)"; default: return p; } }

// sections of a process
static void maps(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); std::vector<std::string> paths; int n = s.chance(1, 10) ? s.range(30, 120) : s.small(14), np = 1 + s.small(6); for (int i = 0; i < np; i++) paths.push_back(gen_path(s));
  Conf k; k.mapprefix = gen_prefixes(s, paths); k.exeprefix = s.chance(1, 2) ? std::vector<std::string>{"!/"} : std::vector<std::string>{}; conf_to_sut(k);
  std::string text; std::multiset<MMap> yes, either; unsigned long long sz = 0, szmax = 0; uint64_t a = s.chance(1, 2) ? 0x400000 : 0x7f0000000000ull; int rejected = 0, odd = 0;
  for (int i = 0; i < n; i++) {
    static const char* perms[] = {"r-xp", "r--p", "rw-p", "r--s", "---p", "rwxs"};
    uint64_t len = s.chance(1, 6) ? 4096 * (1 + s.draw(1u << 24)) : 4096 * (1 + s.draw(500)), off = s.chance(1, 2) ? 0 : s.chance(1, 5) ? 4096ull * s.draw(1ull << 40) : 4096 * s.draw(300);
    std::string head = fmt("%08llx-%08llx %s %08llx %02x:%02x %llu ", (unsigned long long)a, (unsigned long long)(a + len), perms[s.draw(6)], (unsigned long long)off, (int)s.draw(300), (int)s.draw(3), (unsigned long long)s.draw(s.chance(1, 4) ? 18446744073709551615ull : 9999999)); a += len + 4096 * s.draw(50);
    int w = s.weighted({12, 2, 1, 1}); std::string line;
    if (w == 0) {
      std::string raw = decorate(s, paths[s.draw(np)]), as; line = head; while (line.size() < 73) line += ' '; line += raw; Verdict v = judge(raw, k.mapprefix, as);
      if (v == YES) { yes.insert({as, off, len}); sz += len; szmax += len; } else if (v == EITHER) { either.insert({as, off, len}); szmax += len; odd++; } else rejected++;
    } else if (w == 1) { static const char* anon[] = {"", "[heap]", "[stack]", "[vdso]", "[vvar]", "anon_inode:[perf_event]", "socket:[123]", "/memfd:x (deleted)", "/dev/zero (deleted)", "/SYSV00000000 (deleted)", "[anon:x y]", "pipe:[77]"}; std::string t = anon[s.draw(12)]; line = head; if (!t.empty()) while (line.size() < 73) line += ' '; line += t; rejected++; }
    else if (w == 2) { static const char* junk[] = {"", "garbage", "7f00", "zzzz-yyyy r-xp 0 0:0 0 /usr/bin/x", "7f0000-7f1000", "7f0000-7f1000 r-xp", "7f0000-7f1000 r-xp 00000000 08:01 12", "   ", "-", "Size:     4 kB", "VmFlags: rd ex /usr/bin/x"}; line = junk[s.draw(11)]; rejected++; }
    else { line = head; while (line.size() < 73) line += ' '; line += "relative/path"; rejected++; }
    text += line + "\n";
  }
  if (!text.empty() && s.chance(1, 10)) text.pop_back();
  FProc f; f.pid = 7000123; f.exe = "/usr/bin/x"; f.maps_text = text; f.maps_text_set = true; proc_put(f); c.note("mapprefix " + printable([&] { std::string o; for (auto& x : k.mapprefix) o += x + ";"; return o; }()) + "\n" + printable(text, 2500));
  size_t s1 = proc_get_maps(7000123, nullptr, nullptr); GPtrArray* em = nullptr; size_t s2 = proc_get_maps(7000123, state->maps, &em);
  if (s1 != s2) c.fail("size-differs", fmt("total size is %zu when only measured, %zu when recorded", s1, s2));
  std::multiset<MMap> got; for (guint i = 0; i < em->len; i++) { auto* x = (preload_exemap_t*)g_ptr_array_index(em, i); got.insert({x->map->path, x->map->offset, x->map->length}); }
  std::set<MMap> gs(got.begin(), got.end()), ys(yes.begin(), yes.end());
  for (auto& q : ys) if (!gs.count(q)) c.fail("section-missing", q.str() + " was not recorded\n" + printable(text, 3000));
  for (auto& q : gs) if (!ys.count(q) && !either.count(q)) c.fail("section-extra", q.str() + " was recorded\n" + printable(text, 3000));
  unsigned long long elo = 0, ehi = 0; for (auto& q : gs) if (either.count(q)) { if (!yes.count(q)) elo += q.len; ehi += either.count(q) * q.len; } if (s1 < sz + elo || s1 > sz + ehi) c.fail("size", fmt("total size %zu, expected %llu", s1, sz + elo));
  if (g_hash_table_size(state->maps) != gs.size()) c.fail("registered", fmt("%u sections registered, %zu distinct ones recorded", g_hash_table_size(state->maps), gs.size()));
  // a second process sharing them
  GPtrArray* em2 = nullptr; proc_get_maps(7000123, state->maps, &em2); if (em2->len != em->len || g_hash_table_size(state->maps) != gs.size()) c.fail("registered", "reading the same process again gives other sections");
  g_ptr_array_foreach(em2, (GFunc)preload_exemap_free, nullptr); g_ptr_array_free(em2, TRUE); if (g_hash_table_size(state->maps) != gs.size()) c.fail("registered", "releasing one of two users of the sections released them");
  g_ptr_array_foreach(em, (GFunc)preload_exemap_free, nullptr); g_ptr_array_free(em, TRUE); if (g_hash_table_size(state->maps)) c.fail("registered", "sections without a user stay registered");
  // processes that cannot be read
  GPtrArray* em3 = nullptr; int how = (int)s.draw(4); static std::map<std::string, int> oe; oe.clear(); if (how == 1) proc_del(7000123); if (how == 2) { oe["/proc/7000123/maps"] = s.chance(1, 2) ? EACCES : ESRCH; W.open_errno = &oe; } if (how == 3) { f.maps_text = ""; proc_put(f); }
  if (how) { size_t z = proc_get_maps(7000123, state->maps, &em3); if (z || (em3 && em3->len) || g_hash_table_size(state->maps)) c.fail("unreadable", "sections of a process that cannot be read"); if (em3) g_ptr_array_free(em3, TRUE); }
  c.count(0, n); c.count(1, yes.size()); if (odd) c.label("very long name"); if (!k.mapprefix.empty()) c.label("filters"); if (yes.size() && rejected) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
// the process table
static std::map<int, std::vector<std::string>> seen; static std::set<int> kill_at; static int visits; static std::set<int> killed;
static void visit(gpointer k, gpointer v, gpointer) { int pid = GPOINTER_TO_INT(k); if (killed.count(pid)) log_event("DEAD %d", pid); seen[pid].push_back((const char*)v); if (kill_at.count(visits++)) { std::string d = g_scratch + "/proc"; for (int q = 1000; q < 1000 + 60; q += 3) { proc_del(q); killed.insert(q); } } }
static void table(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); std::vector<std::string> paths; int np = 1 + s.small(8), n = s.chance(1, 10) ? s.range(20, 60) : s.small(14); for (int i = 0; i < np; i++) paths.push_back(gen_path(s));
  Conf k; k.exeprefix = gen_prefixes(s, paths); k.mapprefix = s.chance(1, 2) ? std::vector<std::string>{"!/"} : std::vector<std::string>{}; conf_to_sut(k); proc_clear(); meminfo_put(MemInfo());
  std::map<int, std::string> yes, either; int rejected = 0; auto P = [&](const std::string& x) { return g_scratch + "/proc/" + x; };
  std::set<int> used;
  for (int i = 0; i < n; i++) {
    int pid = 1000 + i; if (s.chance(1, 8)) pid = 4194304 - i; if (s.chance(1, 12)) pid = 1 + i; if (s.chance(1, 12)) { static const int far[] = {65536, 131072, 32768, 1 << 20, 256, 1, -1, 2}; pid = (int)getpid() + far[s.draw(8)]; }   // numbers like the daemon's own
    if (pid == (int)getpid() || pid < 1 || pid > 4194304 || !used.insert(pid).second) { pid = 4100000 - i; used.insert(pid); } std::string raw = decorate(s, paths[s.draw(np)]), as; FProc f; f.pid = pid; f.exe = raw;
    switch (s.weighted({12, 1, 1, 1, 1})) {
      case 1: f.no_exe = true; proc_put(f); rejected++; c.note(fmt("%d without exe", pid)); continue;
      case 2: write_file(P(fmt("%d", pid)), "x"); rejected++; c.note(fmt("%d is a file", pid)); continue;
      case 3: mkdir(P(fmt("%d", pid)).c_str(), 0755); write_file(P(fmt("%d/exe", pid)), "/usr/bin/x"); rejected++; c.note(fmt("%d/exe is a file", pid)); continue;
      case 4: { static const char* odd[] = {"self2", "12a", "a12", "1.2", "-5", "+7", "12 ", "0x12", "sys", "1e3", "x12345678", "acpi1234567890", "1234567890q", "12345678.1"}; std::string d = odd[s.draw(14)]; mkdir(P(d).c_str(), 0755); (void)!symlink("/usr/bin/x", (P(d) + "/exe").c_str()); rejected++; c.note("entry " + d); continue; }
    }
    Verdict v = judge(raw, k.exeprefix, as); proc_put(f); if (v == YES) yes[pid] = as; else if (v == EITHER) either[pid] = as; else rejected++; c.note(fmt("%d %s", pid, printable(raw).c_str()));
  }
  { FProc f; f.pid = (int)getpid(); f.exe = "/usr/bin/x"; proc_put(f); }   // the daemon itself
  seen.clear(); kill_at.clear(); killed.clear(); visits = 0; bool van = s.chance(1, 5); if (van) kill_at.insert((int)s.draw(4)); c.note("exeprefix " + printable([&] { std::string o; for (auto& x : k.exeprefix) o += x + ";"; return o; }()) + (van ? " (processes vanish)" : ""));
  int fds = count_fds(); proc_foreach(visit, nullptr); if (count_fds() != fds) c.fail("descriptors", "descriptors left open");
  for (auto& l : log_lines()) if (!l.compare(0, 4, "DEAD")) c.fail("vanished", "a process that had gone was reported: " + l);
  if (seen.count((int)getpid())) c.fail("self", "the daemon considers itself");
  for (auto& x : seen) { if (x.second.size() != 1) c.fail("twice", fmt("process %d reported %zu times", x.first, x.second.size())); const std::string* w = yes.count(x.first) ? &yes[x.first] : either.count(x.first) ? &either[x.first] : nullptr; if (!w) c.fail("program-extra", fmt("process %d reported as %s", x.first, printable(x.second[0]).c_str())); if (*w != x.second[0]) c.fail("program-path", fmt("process %d reported as %s, expected %s", x.first, printable(x.second[0], 1500).c_str(), printable(*w, 1500).c_str())); }
  for (auto& y : yes) if (!seen.count(y.first) && !killed.count(y.first)) c.fail("program-missing", fmt("process %d (%s) was not reported", y.first, printable(y.second).c_str()));
  c.count(2, n); c.count(3, yes.size()); if (van && !killed.empty()) c.label("processes vanish"); if (!k.exeprefix.empty()) c.label("filters"); if (yes.size() && rejected) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900)); }
}
// the daemon's model follows the filters, with odd names, other lines and changes of the filters
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 2; p.min_cycles = 3; p.max_cycles = 14; p.max_events = 3; p.vomm_exact = false; p.algo = 2; p.odd_paths = p.junk_maps = true; p.dup_maps = s.chance(1, 2); p.reload = p.reload_all = s.chance(1, 2); p.cmp.time = p.cmp.exe_time = p.cmp.mk = p.cmp.vomm = false; p.check_running = true;
  SimStats st = run_history(s, c, p); c.label("daemon"); c.count(4, st.probes); if (st.exes >= 1 && st.events >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
CheckDef g_check = {"C15", "maps: a section recorded and a line not recorded; table: a process reported and an entry not reported; history: a program known and three events",
  {{"maps", maps, 5000, 150000}, {"table", table, 4000, 120000}, {"history", history, 700, 16000}}, {"lines", "sections recorded", "process entries", "processes reported", "model comparisons"}};
