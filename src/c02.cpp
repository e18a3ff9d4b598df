// C02: nothing learned is lost or altered by saving and restarting.
#include "gen.h"
#include <csignal>
#include <sys/syscall.h>
static const char* S2 = ROOT "/state2";

// model -> file -> loaded -> written -> loaded -> ... ; arbitrary names and figures
static void roundtrip(Src& s, Ctx& c) {
  sut_init(); GenOpts o; int size = s.weighted({4, 3, 1}); o.max_exes = size == 0 ? 3 : size == 1 ? 9 : 40; o.max_maps = o.max_exes * 2; o.dup = s.chance(1, 6); o.consistent = !s.chance(1, 3);
  Model m = gen_model(s, o);
  // names of any bytes and of any length up to the limit
  if (s.chance(1, 3)) {
    Model n = m; n.exes.clear(); n.mk.clear(); n.vomm = VNode(); std::map<std::string, std::string> ren;
    for (auto& e : m.exes) {
      std::string p = e.first; int how = s.weighted({2, 1, 1, 1});
      if (how == 1) { size_t L = s.chance(1, 2) ? 511 : 490 + s.draw(22); int b = std::vector<int>{0xff, '%', ' ', 'a', 0x80, '\n'}[s.draw(6)]; p += "/"; while (p.size() < L) p += (char)b; p.resize(L - 1); p += (char)('A' + ren.size() % 26); }
      if (how == 2) { p += "/"; for (int k = 1 + (int)s.draw(100); k > 0; k--) { int b = 1 + (int)s.draw(255); p += (char)(b == '/' ? '.' : b); } }
      if (how == 3) { p += "/\n\r\t x%2F%00#?"; }
      if (p.size() > 511 || n.exes.count(p)) p = e.first;
      ren[e.first] = p; n.exes[p] = e.second;
    }
    for (auto& k : m.mk) { std::string a = ren[k.first.first], b = ren[k.first.second]; n.put_mk(a, b, k.second); }
    std::function<void(const VNode&, VNode&)> cp = [&](const VNode& x, VNode& y) { y.count = x.count; for (auto& q : x.ch) cp(q.second, y.ch[ren[q.first]]); }; cp(m.vomm, n.vomm); m = n; c.label("odd names");
  }
  bool seqs = !m.vomm.ch.empty(); Conf k; k.algo = s.chance(1, 3) ? "Markov" : "VOMM"; if (!k.vomm()) c.label("Markov");
  static const char* vers[] = {"0.6.4", "0.6", "0.1.0-rc2", "0.99"}; std::string text = emit_state(m, &s, vers[s.weighted({5, 1, 1, 1})]);
  if (s.chance(1, 5)) { size_t p = text.find('\n'); text.insert(p + 1, "# a comment\n"); }
  Ref r; r.conf = k; r.disk = m; r.has_disk = true; conf_to_sut(k); r.load(); c.note(fmt("%zu programs, %zu sections, %zu pairs, algorithm %s%s", m.exes.size(), m.maps.size(), m.mk.size(), k.algo.c_str(), seqs ? "" : ", no sequences in the file") + "\n" + model_str(m).substr(0, 3000));
  write_file(realpath_of(STATEF), text); preload_state_load(STATEF);
  Model want = m; want.bad.clear(); CmpOpts co; co.tol = 1e-12; co.update_time = true; for (auto& q : want.mk) q.second.state = -1;
  { Model g = dump_sut(); CmpOpts c1 = co; std::string d = diff_models(want, g, c1); if (!d.empty()) c.fail("load", "file vs loaded: " + d + "\n--- file\n" + text.substr(0, 5000)); }
  preload_state_prepare_algorithm(); if (k.vomm() && !seqs) { want.vomm = r.tree; if (!r.tree.ch.empty()) c.label("seeded"); }
  // extra figures that only a running daemon produces
  bool exact = true;
  if (s.chance(1, 3)) {
    exact = false; state->time += (int)s.draw(100000); want.time = state->time;
    for (auto& e : want.exes) { e.second.time += s.draw(want.time > e.second.time ? want.time - e.second.time + 1 : 1); sut_exe(e.first)->time = e.second.time; }
    GHashTableIter it; gpointer kk, v; g_hash_table_iter_init(&it, state->exes); int nn = 0; (void)nn;
    while (g_hash_table_iter_next(&it, &kk, &v)) { auto* e = (preload_exe_t*)v; for (guint i = 0; i < e->markovs->len; i++) { auto* q = (preload_markov_t*)g_ptr_array_index(e->markovs, i); if (q->a == e) { for (int a = 0; a < 4; a++) if (s.chance(1, 2)) q->time_to_leave[a] = std::vector<double>{1 / 3.0, 1e-7, 1e12 / 7, 123456.789, 99999.95, 2e300}[s.draw(6)]; q->weight[0][3] = (int)s.draw(2147483647); q->time = (int)s.draw(2000000000) + (s.chance(1, 4) ? 3000000000ll : 0); } } }
    Model g = dump_sut(); want.mk = g.mk; for (auto& q : want.mk) q.second.state = -1; c.label("running figures");
  }
  int rounds = 2 + s.small(2); const char* files[2] = {S2, STATEF};
  Model prev = want; CmpOpts loose = co; if (!exact) loose.tol = 6e-6;
  for (int i = 0; i < rounds; i++) {
    const char* f = files[i % 2]; char* e = preload_state_write_file(f); if (e) c.fail("save-fails", e);
    Model g; std::string err; if (!parse_state(slurp(f), g, err)) c.fail("file-malformed", fmt("save %d: ", i + 1) + err + "\n" + slurp(f).substr(0, 3000));
    std::string d = diff_models(prev, g, i == 0 ? loose : co); if (!d.empty()) c.fail("saved-model", fmt("before save %d vs saved: ", i + 1) + d);
    if (i == 0) { prev = g; for (auto& q : prev.mk) q.second.state = -1; }
    preload_state_free(); preload_state_load(f);
    g = dump_sut(); for (auto& q : g.mk) q.second.state = -1;
    d = diff_models(prev, g, co); if (!d.empty()) c.fail("load", fmt("saved vs loaded again (round %d): ", i + 1) + d);
    preload_state_prepare_algorithm(); g = dump_sut(); if (!prev.vomm.ch.empty() || !k.vomm()) { d = diff_models(prev, g, co); if (!d.empty()) c.fail("load", fmt("changed after start-up (round %d): ", i + 1) + d); } else { prev.vomm = g.vomm; }
  }
  preload_state_free();
  if (m.exes.size() >= 2 && !m.maps.empty()) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// daemon lifetimes, every kind of save
static void lives(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 5; p.min_cycles = 2; p.max_cycles = 10; p.max_events = 4; p.vomm_exact = !s.chance(1, 4); p.algo = s.chance(1, 3) ? 3 : 0; p.deletes = s.chance(1, 4); p.odd_paths = s.chance(1, 2); p.reload = p.algo == 3; p.predict = s.chance(1, 3); p.saves = true; p.save_weight = 2; p.dumps = s.chance(1, 6);
  SimStats st = run_history(s, c, p); if (st.restarts) c.label("restart"); if (st.removed) c.label("removed"); c.count(0, st.saves); c.count(1, st.restarts);
  if (st.restarts >= 1 && st.exes >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// an abrupt end loses at most one autosave period
static void abrupt(Src& s, Ctx& c) {
  bool faults = s.chance(1, 3), power = s.chance(1, 4);
  int n = 2 + s.small(4); std::vector<FProc> ps; MemInfo mi; meminfo_put(mi); Ref ref;
  for (int i = 0; i < n; i++) { FProc p; p.pid = 6000000 + i; p.exe = ROOT "/usr/bin/" + fmt("app%d", i); p.maps = {{p.exe, 0, 3000000, ""}, {ROOT "/usr/lib/" + fmt("l%d", (int)s.draw(3)), 0, 4096 * (1 + s.draw(9)), ""}}; mkfile(p.exe); ps.push_back(p); }
  Conf k; k.dopredict = s.chance(1, 4); k.cycle = std::vector<int>{20, 2, 10, 60}[s.draw(4)]; k.autosave = std::vector<int>{37, 13, 101, 3, 77}[s.draw(5)]; k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; write_file(realpath_of(CONFF), k.text());
  c.note(fmt("cycle %d autosave %d %s", k.cycle, k.autosave, k.algo.c_str())); ref.conf = k; int autosaves = 0, nlives = 1 + s.small(2);
  for (int life = 0; life < nlives; life++) {
    LifeOpts lo; lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"}; ref.load(); autosaves = 0;
    // event-driven reference: ticks at whole seconds, everything else between
    int64_t tick = 0, tick2 = -1, as = k.autosave; int64_t end = (int64_t)(k.autosave * (1 + s.draw(4))) + (int64_t)s.draw(k.autosave) ; int newk = 0; int64_t ended = 0;
    for (int64_t t = 0; t < end; t++) {
      if (t == as && (t == tick || t == tick2)) { break; }
      if (t == tick) { int d = ref.tick(); tick2 = t + d; newk = 0; }
      else if (t == tick2) { int d = ref.tick2(); tick = t + d; newk = 0; }
      else if (t == as) {
        bool bad = faults && s.chance(1, 2); if (bad) { ref.save(true); lo.acts.push_back({t * 1000000 - 100000, [] { W.wopen_prefix = STATEF; W.wopen_prefix_errno = ENOSPC; }}); lo.acts.push_back({t * 1000000 + 100000, [] { W.wopen_prefix = nullptr; }}); } else { ref.save(); autosaves++; }
        as += k.autosave; c.note(fmt("t=%lld autosave%s", (long long)t, bad ? " fails" : "")); if (bad) c.label("failing autosave"); }
      ended = t;
      if (power && s.chance(1, k.cycle > 10 ? 30 : 10)) { bool on = !ref.batteries.count(0); if (on) ref.batteries.insert(0); else ref.batteries.erase(0); lo.acts.push_back({t * 1000000 + 300000, [on] { battery_put(0, on ? "Discharging" : "Charging"); }}); c.note(fmt("t=%lld.3 %s", (long long)t, on ? "on battery" : "on mains")); c.label("battery"); }
      if (s.chance(1, k.cycle > 10 ? 6 : 3)) {
        int a = (int)s.draw(n); FProc p = ps[a]; int64_t us = t * 1000000 + 500000;
        if (ref.procs.count(p.pid)) { ref.procs.erase(p.pid); lo.acts.push_back({us, [p] { proc_del(p.pid); }}); c.note(fmt("t=%.1f stop app%d", us / 1e6, a)); }
        else if (!newk) { newk = 1; ref.procs[p.pid] = {p.exe, p.maps}; lo.acts.push_back({us, [p] { proc_put(p); }}); c.note(fmt("t=%.1f start app%d", us / 1e6, a)); }
      }
    }
    int64_t kill_us = ended * 1000000 + 800000; bool polite = s.chance(1, 6);
    if (polite) { lo.end_us = kill_us; ref.save(); } else lo.acts.push_back({kill_us, [] { syscall(SYS_exit_group, 77); }});
    c.note(fmt("t=%.1f %s", kill_us / 1e6, polite ? "stop" : "abrupt end"));
    Life l = run_life(lo); if (l.sig || l.exit_code == 99) c.fail("crash", l.why + l.log.substr(0, 2500)); if (l.exit_code != (polite ? 0 : 77)) c.fail("exit-status", l.why + l.log.substr(0, 1500));
    bool ok; std::string z = read_file(realpath_of(STATEF), &ok);
    if (!ok) { if (ref.has_disk) c.fail("autosave", fmt("no state file after %lld s with an autosave period of %d s", (long long)ended, k.autosave)); continue; }
    Model g; std::string err; if (!parse_state(z, g, err)) c.fail("file-malformed", err);
    if (!ref.has_disk) c.fail("autosave", "a state file appeared before the first autosave");
    CmpOpts o; if (ref.vomm_ambiguous) o.vomm = false; std::string d = diff_models(ref.disk, g, o);
    if (!d.empty()) c.fail("autosave", fmt("abrupt end at %lld s, %d autosaves: expected vs file: ", (long long)ended, autosaves) + d + "\n--- expected\n" + model_str(ref.disk).substr(0, 4000) + "--- file\n" + model_str(g).substr(0, 4000));
    if (ref.vomm_ambiguous) ref.disk.vomm = g.vomm;
    for (auto& q : ps) proc_del(q.pid); for (auto& q : ref.procs) { FProc p; p.pid = q.first; p.exe = q.second.exe; p.maps = q.second.maps; proc_put(p); }
    // at most one known program running at the next start, so that the order of launches is determined
    bool first = true; for (auto it = ref.procs.begin(); it != ref.procs.end();) { if (!first) { proc_del(it->first); it = ref.procs.erase(it); } else { first = false; ++it; } }
    if (autosaves && ref.disk.exes.size() >= 1) c.nontrivial(); c.count(2, autosaves);
  }
  c.sample(std::string(g_slot->desc).substr(0, 1200));
}
CheckDef g_check = {"C02", "roundtrip: two or more programs and a section; lives: a restart with two or more programs known; abrupt: an autosave with a program known before an abrupt end",
  {{"roundtrip", roundtrip, 1500, 40000}, {"lives", lives, 900, 25000}, {"abrupt", abrupt, 700, 15000}}, {"saves", "restarts", "autosaves"}};
