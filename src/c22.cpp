// C22: a status report tells the truth and changes nothing.
#include "gen.h"
#include <csignal>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static std::string captured(size_t at) { fflush(stderr); fflush(stdout); std::string t = read_file("/proc/self/fd/2"); return at <= t.size() ? t.substr(at) : t; }
static Conf any_conf(Src& s) {
  Conf k; static const int odd[] = {0, 1, -1, 2147483647, -2147483647, 100, 1000000, -100}; auto num = [&](int lo, int hi) { return s.chance(1, 6) ? odd[s.draw(8)] : s.range(lo, hi); };
  k.cycle = num(2, 1000); k.usecorr = !s.chance(1, 2); k.minsize = num(0, 100000000); k.memtotal = num(-100, 100); k.memfree = num(-100, 100); k.memcached = num(-100, 100); k.membuffers = num(-100, 100); k.doscan = !s.chance(1, 2); k.dopredict = !s.chance(1, 2); k.autosave = num(1, 100000); k.procs = num(0, 64); k.sort = (int)s.draw(4); k.algo = s.chance(1, 2) ? "Markov" : "VOMM";
  static const char* items[] = {"/usr/", "/lib", "!/", "!/usr/sbin/", "/", "!/lib/modules", "/var/cache/", "/opt/a b", "!/d\xc3\xa9j\xc3\xa0/", "!!/x", "/usr/lib/#x", "/a=b", "[x]", "/100%s", "/%n%d"};
  auto lst = [&](std::vector<std::string>& v) { int n = s.chance(1, 10) ? s.range(7, 40) : s.small(6); for (int i = 0; i < n; i++) v.push_back(items[s.draw(15)]); }; lst(k.mapprefix); lst(k.exeprefix); return k;
}
// any model and any settings; the report, its settings read back as a configuration, and what was there before
static void report(Src& s, Ctx& c) {
  sut_init(); GenOpts o; o.max_exes = s.chance(1, 10) ? 40 : 8; o.max_maps = s.chance(1, 10) ? 120 : 10; Model m = gen_model(s, o); if (s.chance(1, 2)) { int n = s.small(20); for (int i = 0; i < n; i++) m.bad[fmt("%s/usr/bin/bad%d", ROOT, i)] = 1 + (int)s.draw(1000000); }
  Conf k = any_conf(s), live = k; live.exeprefix.clear(); live.mapprefix.clear();
  std::vector<std::string> running; for (auto& e : m.exes) if (s.chance(1, 3)) running.push_back(e.first);
  Ref r; auto bad = m.bad; m.bad.clear(); load_both(r, m, live, running, &s); conf_to_sut(k); m.bad = bad; for (auto& b : bad) g_hash_table_insert(state->bad_exes, g_strdup(b.first.c_str()), GINT_TO_POINTER((int)b.second)); c.note(printable(k.text(), 1200)); c.note(fmt("%zu programs (%zu running), %zu uninteresting, %zu sections, time %lld", m.exes.size(), running.size(), m.bad.size(), m.maps.size(), m.time));
  Model before = dump_sut(); int n = 1 + s.small(2);
  for (int i = 0; i < n; i++) {
    size_t at = captured(0).size(); preload_log_level = (int)s.draw(11); if (s.chance(1, 2)) { preload_state_dump_log(); preload_conf_dump_log(); } else { preload_conf_dump_log(); preload_state_dump_log(); } std::string t = captured(at); Report rep = parse_report(t);
    Model want = m; std::string d = diff_report(rep, want, (int)running.size(), k); if (!d.empty()) c.fail("report", d);
    CmpOpts all; all.tol = 0; d = diff_models(before, dump_sut(), all); if (!d.empty()) c.fail("report-effect", "a report changed what is known: " + d);
    // the settings reported are a configuration that means the same
    size_t g = t.find("\n["), e = t.find("# loaded configuration - end"); if (g == std::string::npos) c.fail("report", "no settings reported: " + t); if (e == std::string::npos || e < g) e = t.size();
    std::string txt = t.substr(g + 1, e - g - 1); { std::string q; size_t p = 0; while (p < txt.size()) { size_t z = txt.find('\n', p); if (z == std::string::npos) z = txt.size(); std::string l = txt.substr(p, z - p); p = z + 1; if (l.empty() || (l[0] != '[' && l.find(" = ") == std::string::npos) || !l.compare(0, 13, "preload time ") || !l.compare(0, 4, "num ")) continue; q += l + "\n"; } txt = q; }
    write_file(realpath_of(CONFF), txt); preload_conf_load(CONFF, FALSE); at = captured(0).size(); preload_conf_dump_log(); Report again = parse_report(captured(at)); if (again.set != rep.set) c.fail("read-back", "the settings reported, read back as a configuration, are reported as:\n" + again.text + "\nbefore:\n" + t);
    if (s.chance(1, 2)) { std::string b = read_file(realpath_of(CONFF)); write_file(realpath_of(CONFF), b + "\n[model]\ncycle = what\n"); preload_conf_load(CONFF, FALSE); } else if (s.chance(1, 2)) { k = any_conf(s); conf_to_sut(k); }
  }
  c.count(0, n); c.label(running.empty() ? "none running" : "some running"); if (m.exes.size() >= 2 && m.maps.size() >= 1) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// the running daemon, asked at any moment of any history, at any verbosity
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 3; p.min_cycles = 3; p.max_cycles = 16; p.max_events = 4; p.algo = s.chance(1, 2) ? 3 : 2; p.vomm_exact = s.chance(1, 2); p.dumps = p.check_report = true; p.dump_weight = 4; p.small_sizes = s.chance(1, 3); p.deletes = s.chance(1, 3); p.reload = p.reload_all = s.chance(2, 3); p.switches = s.chance(1, 3); p.battery = s.chance(1, 4); p.switch_weight = 3; p.dup_maps = s.chance(1, 3); p.odd_paths = s.chance(1, 4); p.cmp.vomm = p.vomm_exact; p.storm = false;
  SimStats st = run_history(s, c, p); c.count(0, st.reports); c.count(1, st.cycles); if (st.restarts) c.label("restart"); c.label("daemon"); if (st.reports >= 1 && st.exes + st.removed >= 1) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C22", "report: two programs and a file section known; history: a report requested and a program known", {{"report", report, 3000, 90000}, {"history", history, 1500, 40000}}, {"reports", "rounds"}};
