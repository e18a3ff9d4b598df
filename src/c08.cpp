// C08: Markov prediction ranks by the documented probability model.
#include "gen.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 5; p.max_lives = 3; p.min_cycles = 4; p.max_cycles = 24; p.max_events = 3; p.vomm_exact = false; p.algo = 1; p.check_ra = true;
  p.filters = s.chance(1, 5); p.deletes = s.chance(1, 6); p.battery = s.chance(1, 6); p.reload = s.chance(1, 4); p.switches = s.chance(1, 8);
  p.cmp.vomm = false;
  SimStats st = run_history(s, c, p);
  c.count(0, st.predictions); if (st.restarts) c.label("restart");
  if (st.predictions) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
static Conf gen_conf(Src& s) {
  Conf k; k.algo = "Markov"; k.memtotal = k.memfree = 100; k.cycle = std::vector<int>{20, 2, 3, 7, 60, 600}[s.draw(6)]; k.usecorr = !s.chance(1, 3); return k;
}
static void formula(Src& s, Ctx& c) {
  sut_init(); GenOpts o; o.max_exes = s.chance(1, 10) ? 40 : 8; o.max_maps = o.max_exes * 2; o.odd = false; o.separate_files = s.chance(1, 2); o.big = s.chance(1, 4); o.consistent = !s.chance(1, 8);
  Model m = gen_model(s, o); if (!o.consistent) for (auto& k : m.mk) for (int a = 0; a < 4; a++) { int x = 0; for (int b = 0; b < 4; b++) if (a != b) x += k.second.w[a][b]; k.second.w[a][a] = x; }
  bool small = true; for (auto& q : m.maps) { if (q.len > (64 << 20)) small = false; mkfile(q.path, 4096); }
  if (!small) { MemInfo mi; mi.total = mi.available = 1000000000; meminfo_put(mi); }
  std::vector<std::string> run; for (auto& e : m.exes) if (s.chance(1, 3)) run.push_back(e.first);
  Ref r; Conf k = gen_conf(s); load_both(r, m, k, run, &s);
  c.note(k.text() + model_str(m)); for (auto& p : run) c.note("running " + p);
  int n = predict_and_compare(c, r, true);
  // a second prediction gives the same answer, and so does one after the model was changed elsewhere
  predict_and_compare(c, r, true);
  c.label(fmt("exes=%d", std::min<int>(m.exes.size(), 9))); c.label(k.usecorr ? "correlation" : "plain"); c.count(1, n);
  if (n >= 1 && !run.empty()) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500)); }
}
// Candidates that differ in one respect only are ranked by it.
static void rank(Src& s, Ctx& c) {
  sut_init(); int n = 2 + s.small(6), what = (int)s.draw(3); Model m; m.time = 100000; std::string x = ROOT "/usr/bin/x"; MMap xm{ROOT "/usr/lib/x.so", 0, 4096}; m.maps.insert(xm); m.exes[x].maps = {xm}; m.exes[x].time = 40000; mkfile(xm.path);
  std::vector<double> key; std::vector<std::string> files; int base = 5 + (int)s.draw(1000); int tot = 2000;
  Conf k = gen_conf(s); double ttl = k.cycle * (1 + (double)s.draw(300) / 50); if (what == 2) k.usecorr = true; else if (what == 1) k.usecorr = s.chance(1, 2);
  for (int i = 0; i < n; i++) {
    std::string y = ROOT "/usr/bin/" + fmt("y%d", i); MMap q{ROOT "/usr/lib/" + fmt("y%d.so", i), 0, 4096}; m.maps.insert(q); m.exes[y].maps = {q}; m.exes[y].time = 30000; mkfile(q.path);
    MMk r; r.time = 15000; int d = (int)s.draw(n + 3);
    r.w[1][1] = tot; r.w[1][3] = base; r.w[1][0] = tot - base; r.ttl[1] = ttl;
    if (what == 0) { r.w[1][3] = base + d * 10; r.w[1][0] = tot - r.w[1][3]; key.push_back(d); }
    else if (what == 1) { r.ttl[1] = ttl * (1 + d * 0.1); key.push_back(-d); }
    else { r.time = 14000 + d * 500; key.push_back(d); }
    m.put_mk(x, y, r); files.push_back(q.path);
    c.note(fmt("candidate %d: departures %d of %d, dwell %g, together %lld", i, r.w[1][3], tot, r.ttl[1], r.time));
  }
  Ref r; load_both(r, m, k, {x}, &s); log_reset(); preload_prophet_predict(nullptr); auto v = log_reqs();
  std::map<std::string, int> pos; for (size_t i = 0; i < v.size(); i++) pos[v[i].path] = (int)i;
  // independence of the two programs (correlation 0) means no need at all
  double last = 1e300; for (auto& q : v) for (int i = 0; i < n; i++) if (files[i] == q.path) { if (key[i] > last) c.fail("rank", fmt("candidate %d should be requested before an inferior one", i)); last = std::min(last, key[i]); }
  for (int i = 0; i < n; i++) { bool none = k.usecorr && m.mk.begin()->second.time >= 0 && 100000.0 * (what == 2 ? 14000 + key[i] * 500 : 15000) == 40000.0 * 30000; if (!pos.count(files[i]) && !none) c.fail("rank-missing", fmt("candidate %d was not requested at all", i)); }
  if (pos.count(xm.path)) c.fail("prefetch-running", "a section of the running program was requested");
  c.label(fmt("by=%d", what)); if (n >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 800)); }
}
CheckDef g_check = {"C08", "history: a round with at least one section needed; formula: a program runs and at least one section is needed; rank: three or more candidates",
  {{"history", history, 1600, 40000}, {"formula", formula, 3000, 80000}, {"rank", rank, 600, 10000}}, {"rounds with predictions", "sections needed"}};
