// C10: sequence prediction favours what more often follows the recent launches.
#include "gen.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 3; p.min_cycles = 4; p.max_cycles = 24; p.max_events = 3; p.vomm_exact = true; p.algo = s.chance(1, 5) ? 3 : 0; p.check_ra = true;
  p.filters = s.chance(1, 5); p.deletes = s.chance(1, 5); p.battery = s.chance(1, 6); p.reload = p.algo == 3 || s.chance(1, 5); p.switches = s.chance(1, 8);
  SimStats st = run_history(s, c, p);
  c.count(0, st.predictions); if (st.restarts) c.label("restart"); if (st.removed) c.label("removed");
  if (st.predictions && st.launches >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
static Conf conf_vomm(Src& s) { Conf k; k.memtotal = k.memfree = 100; k.algo = s.chance(1, 4) ? "\"VOMM\"" : "VOMM"; return k; }
static void formula(Src& s, Ctx& c) {
  sut_init(); GenOpts o; o.max_exes = s.chance(1, 10) ? 30 : 8; o.max_maps = o.max_exes * 2; o.odd = false; o.separate_files = s.chance(1, 2); o.big = s.chance(1, 4);
  Model m = gen_model(s, o); bool small = true; for (auto& q : m.maps) { if (q.len > (64 << 20)) small = false; mkfile(q.path, 4096); }
  if (!small) { MemInfo mi; mi.total = mi.available = 1000000000; meminfo_put(mi); }
  std::vector<std::string> ps; for (auto& e : m.exes) ps.push_back(e.first);
  if (ps.empty()) throw CaseSkip{"no programs"};
  Ref r; Conf k = conf_vomm(s); load_both(r, m, k, {}, &s); c.note(k.text() + model_str(m));
  int n = 0, rounds = 1 + s.small(4), steps = 0;
  for (int q = 0; q < rounds; q++) {
    int l = s.small(9); for (int i = 0; i < l; i++) { const std::string& p = ps[s.draw(ps.size())]; vomm_update(sut_exe(p)); r.launch(p); c.note("launch " + p); steps++; }
    for (auto& p : ps) { bool run = s.chance(1, 4); r.exes[p].running = run; sut_exe(p)->running_timestamp = run ? state->last_running_timestamp : state->last_running_timestamp - 1; if (run) c.note("running " + p); }
    if (s.chance(1, 5)) { const std::string& p = ps[s.draw(ps.size())]; preload_state_unregister_exe(sut_exe(p)); r.forget(p); c.note("forget " + p); ps.erase(std::find(ps.begin(), ps.end(), p)); if (ps.empty()) break; }
    n += predict_and_compare(c, r, true);
  }
  c.label(fmt("launches=%d", std::min(steps / 3 * 3, 21))); c.count(1, n);
  if (n >= 1 && steps >= 1) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// Followers of the same program that differ in frequency only are requested in order of frequency.
static void rank(Src& s, Ctx& c) {
  sut_init(); Conf k = conf_vomm(s); int n = 2 + s.small(6); Model m; std::string x = ROOT "/usr/bin/x", z = ROOT "/usr/bin/z"; m.time = 1000;
  for (auto& p : {x, z}) { MMap q{p + ".so", 0, 4096}; m.maps.insert(q); m.exes[p].maps = {q}; mkfile(q.path); }
  std::vector<int> cnt; std::vector<std::string> files; bool deep = s.chance(1, 2);
  for (int i = 0; i < n; i++) {
    std::string y = ROOT "/usr/bin/" + fmt("y%d", i); MMap q{y + ".so", 0, 4096}; m.maps.insert(q); m.exes[y].maps = {q}; mkfile(q.path); files.push_back(q.path);
    int v = 1 + (int)s.draw(s.chance(1, 3) ? 100000 : s.chance(1, 6) ? 1500000000 : n + 2); cnt.push_back(v); m.vomm.ch[x].ch[y].count = v; if (deep) { m.vomm.ch[z].ch[x].count = 1; m.vomm.ch[z].ch[x].ch[y].count = v; }
    c.note(fmt("follower %d: %d times", i, v));
  }
  m.vomm.ch[x].count = 1 + (int)s.draw(50); m.vomm.ch[z].count = 1;
  Ref r; load_both(r, m, k, {}, &s); if (deep) vomm_update(sut_exe(z)); vomm_update(sut_exe(x));
  for (auto& p : {x, z}) sut_exe(p)->running_timestamp = state->last_running_timestamp;
  for (auto& e : m.exes) if (e.first != x && e.first != z) sut_exe(e.first)->running_timestamp = state->last_running_timestamp - 1;
  log_reset(); preload_prophet_predict(nullptr); auto v = log_reqs();
  int last = INT_MAX; std::set<std::string> seen;
  for (auto& q : v) { seen.insert(q.path); for (int i = 0; i < n; i++) if (files[i] == q.path) { if (cnt[i] > last) c.fail("rank", fmt("follower %d (%d times) requested after one seen %d times", i, cnt[i], last)); last = std::min(last, cnt[i]); } }
  for (int i = 0; i < n; i++) if (!seen.count(files[i])) c.fail("rank-missing", fmt("follower %d, seen %d times, was not requested", i, cnt[i]));
  if (seen.count(x + ".so") || seen.count(z + ".so")) c.fail("prefetch-running", "a section of a running program was requested");
  if (n >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 800)); }
}
CheckDef g_check = {"C10", "history: three or more launches and a round with a section needed; formula: a launch and a section needed; rank: three or more followers",
  {{"history", history, 1600, 40000}, {"formula", formula, 3000, 80000}, {"rank", rank, 600, 10000}}, {"rounds with predictions", "sections needed"}};
