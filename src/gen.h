// Generators and helpers for checks that call the code under test directly (no daemon main loop).
#pragma once
#include "sim.h"
#include "sut.h"
#include <algorithm>

inline void sut_init() { preload_log_init(""); preload_conf_load("", TRUE); W.fake_proc = true; W.record_ra = true; meminfo_put(MemInfo()); }

struct GenOpts {
  int max_exes = 6, max_maps = 8; bool odd = true, consistent = true, vomm = true, big = true, dup = false, separate_files = false; bool uncovered_maps = false;
  std::string root = ROOT;
};
inline std::string odd_name(Src& s, int i, bool odd) {
  if (!odd) return fmt("p%d", i);
  switch (s.weighted({6, 2, 2, 2, 1, 1})) {
    case 1: return fmt("p %d", i);
    case 2: { std::string r = fmt("p%d", i); int n = 1 + (int)s.draw(6); for (int k = 0; k < n; k++) { int b = 1 + (int)s.draw(255); if (b == '/' || b == '\n') b = '_'; r += (char)b; } return r; }
    case 3: return fmt("p%d%%41#\xc3\xa9\xe2\x82\xac", i);
    case 4: { std::string r = fmt("p%d", i); while (r.size() < 200) r += "\xfe%"; return r; }
    case 5: return fmt("p%d\t\r\x0b\x0c;\"'\\", i);
    default: return fmt("p%d", i);
  }
}
inline void gen_vomm(Src& s, VNode& n, const std::vector<std::string>& ps, int depth, int& budget, int maxcount) {
  if (depth >= 5 || ps.empty()) return;
  int k = depth == 0 ? s.small((int)ps.size()) : s.small(std::min(3, (int)ps.size()));
  for (int i = 0; i < k && budget > 0; i++) {
    const std::string& p = ps[s.draw(ps.size())]; if (n.ch.count(p)) continue;
    budget--; VNode& c = n.ch[p]; c.count = s.chance(1, 8) ? 0 : s.chance(1, 3) ? 1 + (int)s.draw(maxcount) : 1 + (int)s.draw(6);
    gen_vomm(s, c, ps, depth + 1, budget, maxcount);
  }
}
inline Model gen_model(Src& s, const GenOpts& o) {
  Model m; m.time = s.chance(1, 4) ? (o.big ? s.range64(0, 2000000000) : 1000) : s.range(0, 100000);
  int ne = s.chance(1, 12) ? s.small(1) : 2 + s.small(o.max_exes - 2), nm = 1 + s.small(o.max_maps - 1); std::vector<std::string> ps; std::vector<MMap> ms;
  for (int i = 0; i < nm; i++) {
    MMap q; q.path = o.root + (s.chance(1, 2) ? "/usr/lib/" : "/l/") + "m" + odd_name(s, o.separate_files ? i : (int)s.draw(std::max(1, nm)), o.odd);
    q.off = s.draw(4) * 4096; q.len = (1 + s.draw(2000)) * 4096;
    if (o.big && s.chance(1, 8)) q.off = s.draw(1ull << 44); if (o.big && s.chance(1, 8)) q.len = s.draw(1ull << 36) + 1;
    if (m.maps.insert(q).second) { m.map_update[q] = s.draw(1000); ms.push_back(q); }
  }
  for (int i = 0; i < ne; i++) {
    std::string p = o.root + (s.chance(1, 2) ? "/usr/bin/" : "/opt/") + "x" + odd_name(s, i, o.odd); if (m.exes.count(p)) continue;
    MExe& e = m.exes[p]; e.time = m.time ? (long long)s.draw(m.time + 1) : 0; e.update_time = (long long)s.draw(1000); ps.push_back(p);
    int k = s.small(4); for (int j = 0; j < k && !ms.empty(); j++) { const MMap& q = ms[s.draw(ms.size())]; if (std::find(e.maps.begin(), e.maps.end(), q) == e.maps.end() || (o.dup && s.chance(1, 3))) e.maps.push_back(q); }
    std::sort(e.maps.begin(), e.maps.end());
  }
  bool all = !s.chance(1, 4);
  for (size_t i = 0; i < ps.size(); i++) for (size_t j = i + 1; j < ps.size(); j++) {
    if (!all && s.chance(1, 3)) continue;
    MMk k; long long lim = std::min(m.exes[ps[i]].time, m.exes[ps[j]].time); k.time = o.consistent ? (long long)s.draw(lim + 1) : (long long)s.draw(m.time + 2);
    for (int a = 0; a < 4; a++) {
      double t = s.chance(1, 4) ? 0 : s.chance(1, 6) ? 1 : s.chance(1, 5) ? 0.5 + s.draw(1000) / 700.0 : s.draw(100000) / 7.0; k.ttl[a] = strtod(fmt("%.6g", t).c_str(), 0);
      int sum = 0; for (int b = 0; b < 4; b++) if (b != a) { k.w[a][b] = s.chance(1, 3) ? 0 : (int)s.draw(s.chance(1, 4) ? 100000 : 8); sum += k.w[a][b]; }
      k.w[a][a] = o.consistent ? sum : (s.chance(1, 3) ? 0 : (int)s.draw(1000));
    }
    m.put_mk(ps[i], ps[j], k);
  }
  if (o.vomm && s.chance(3, 4)) { int b = s.chance(1, 12) ? 500 : 25; gen_vomm(s, m.vomm, ps, 0, b, s.chance(1, 5) ? (o.big && s.chance(1, 2) ? 1500000000 : 1000000) : 20); }
  if (!o.uncovered_maps) { m.maps.clear(); std::map<MMap, long long> u; for (auto& e : m.exes) for (auto& q : e.second.maps) { m.maps.insert(q); u[q] = m.map_update[q]; } m.map_update = u; }
  return m;
}
inline preload_exe_t* sut_exe(const std::string& p) { return (preload_exe_t*)g_hash_table_lookup(state->exes, p.c_str()); }
inline void conf_to_sut(const Conf& c) { write_file(realpath_of(CONFF), c.text()); preload_conf_load(CONFF, TRUE); }
inline bool close_to(double a, double b, double tol = 1e-9) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
// Loads a model (with the given programs running) into the code under test and into the reference.
inline void load_both(Ref& r, const Model& m, const Conf& c, const std::vector<std::string>& running, Src* shuffle = nullptr) {
  int pid = 7000001; for (auto& p : running) { FProc f; f.pid = pid; f.exe = p; proc_put(f); r.procs[pid++] = {p, {}}; }
  conf_to_sut(c); r.conf = c; r.disk = m; r.has_disk = true; r.load();
  write_file(realpath_of(STATEF), emit_state(m, shuffle)); preload_state_load(STATEF); preload_state_prepare_algorithm();
}
// Runs a prediction and compares needs, requested ranges, their order and the model before and after.
inline int predict_and_compare(Ctx& c, Ref& r, bool order) {
  auto ln = r.need_exe(); auto mn = r.need_map(); Model before = dump_sut(); log_reset();
  preload_prophet_predict(nullptr);
  for (auto& e : ln) {
    auto* x = sut_exe(e.first); if (!x) c.fail("lost-program", printable(e.first));
    if (!close_to(x->lnprob, e.second, 1e-8)) c.fail("need-program", fmt("%s: log-probability of not being needed is %.12g, expected %.12g\n", printable(e.first).c_str(), x->lnprob, e.second) + model_str(before).substr(0, 6000));
  }
  if (r.conf.vomm()) for (auto& e : r.exes) if (e.second.running) { auto* x = sut_exe(e.first); if (x && !close_to(x->lnprob, 0)) c.fail("running-bid", fmt("%s is running and got a bid (%.12g)", printable(e.first).c_str(), x->lnprob)); }
  std::map<std::string, double> byfile; std::set<std::string> shared;
  for (guint i = 0; i < state->maps_arr->len; i++) {
    auto* q = (preload_map_t*)g_ptr_array_index(state->maps_arr, i); MMap k{q->path, q->offset, q->length};
    auto it = mn.find(k); double w = it == mn.end() ? 0 : it->second;
    if (!close_to(q->lnprob, w, 1e-8)) c.fail("need-section", fmt("%s: log-probability of not being needed is %.12g, expected %.12g\n", k.str().c_str(), q->lnprob, w) + model_str(before).substr(0, 6000));
    if (byfile.count(printable(k.path, 4000))) shared.insert(printable(k.path, 4000)); byfile[printable(k.path, 4000)] = w;
  }
  std::map<std::string, Ranges> must, may; int n = 0;
  for (auto& q : mn) if (q.second < 1e-9) { std::string p = printable(q.first.path, 4000); may[p].add(q.first.off, q.first.off + q.first.len); if (q.second < -1e-9) { must[p].add(q.first.off, q.first.off + q.first.len); n++; } }
  auto v = log_reqs(); auto got = cover(v);
  for (auto& m : must) if (!got[m.first].contains(m.second)) c.fail("prefetch-missing", fmt("%s: needed%s, requested%s", m.first.c_str(), m.second.str().c_str(), got[m.first].str().c_str()));
  for (auto& g : got) if (!g.second.r.empty()) { auto it = may.find(g.first); if (it == may.end() || !it->second.contains(g.second)) c.fail("prefetch-extra", fmt("%s: requested%s, needed%s", g.first.c_str(), g.second.str().c_str(), it == may.end() ? " nothing" : it->second.str().c_str())); }
  if (order) { double last = -1e300; for (auto& q : v) { if (shared.count(q.path)) continue; double w = byfile[q.path]; if (w < last - 1e-8) c.fail("prefetch-order", fmt("%s (need %.9g) requested after one with need %.9g", q.path.c_str(), -w, -last)); last = std::max(last, w); } }
  CmpOpts o; o.tol = 0; std::string d = diff_models(before, dump_sut(), o); if (!d.empty()) c.fail("learning-changed", "a prediction changed what was learned: " + d);
  return n;
}
