// C11: prefetching stays within the configured memory budget, most needed first.
#include "gen.h"
#include <cmath>
static int clampp(int v) { return v > 100 ? 100 : v < -100 ? -100 : v; }
struct Budget { double lo, hi; bool exact; };
static Budget budget(const Conf& k, const MemInfo& m, bool exact) {
  double avail = m.has_available ? m.available : m.free_ + 0.8 * m.cached + 0.75 * m.buffers;
  double base = clampp(k.memtotal) / 100.0 * m.total + clampp(k.memfree) / 100.0 * avail;
  double b = std::max(0.0, base) + clampp(k.memcached) / 100.0 * m.cached + clampp(k.membuffers) / 100.0 * m.buffers;
  if (exact) b = std::round(b); double tol = exact ? 0 : 500; return {b - tol, b + tol, exact};
}
static long figure(Src& s, bool exact, long unit) {
  static const long big[] = {0, 1, 50, 4000, 100000, 2000000, 16000000, 500000000};
  long v = s.chance(1, 6) ? 0 : (long)s.draw(big[1 + s.draw(7)] + 1); if (exact) v = v / unit * unit; return v;
}
static MemInfo gen_mem(Src& s, bool exact) {
  MemInfo m; m.total = figure(s, exact, 100); if (!m.total) m.total = 100; m.free_ = figure(s, exact, 100); m.available = figure(s, exact, 100); m.buffers = figure(s, exact, 400); m.cached = figure(s, exact, 1000); m.has_available = !s.chance(1, 4);
  return m;
}
static int pct(Src& s) { static const int v[] = {0, 50, 100, -10, -100, 1, 99, -1, 37, 101, 1000, -101, -5000, 2147483647, -2147483647, 10, 20}; return s.chance(1, 3) ? s.range(-100, 100) : v[s.draw(17)]; }
static void gen_conf(Src& s, Conf& k) { k.memtotal = pct(s); k.memfree = pct(s); k.memcached = pct(s); k.membuffers = pct(s); }
static std::string mem_str(const MemInfo& m) { return fmt("total %ld free %ld available %ld%s buffers %ld cached %ld", m.total, m.free_, m.has_available ? m.available : -1L, m.has_available ? "" : " (not reported)", m.buffers, m.cached); }
static std::string pct_str(const Conf& k) { return fmt("memtotal %d memfree %d memcached %d membuffers %d", k.memtotal, k.memfree, k.memcached, k.membuffers); }
// vmstat etc. around the figures in the forms kernels write them
static void put_mem(Src& s, const MemInfo& m) {
  if (!s.chance(1, 3)) { meminfo_put(m); return; }
  std::string t = fmt("MemTotal:%*ld kB\nMemFree:%*ld kB\n", 15, m.total, 16, m.free_); if (m.has_available) t += fmt("MemAvailable:  %*ld kB\n", 9, m.available);
  t += fmt("Buffers: %15ld kB\nCached: %16ld kB\nSwapCached:        1234 kB\nActive:  %15d kB\nInactive:          77 kB\nActive(anon):      22 kB\nInactive(anon):    33 kB\nActive(file):      44 kB\nInactive(file):    55 kB\nSwapTotal:       1000 kB\nSwapFree:         999 kB\nHugePages_Total:       0\nHugePages_Free:        0\nDirectMap4k:       99 kB\n", m.buffers, m.cached, 66);
  if (s.chance(1, 3)) { size_t n = 3000 + s.draw(3000); if (s.chance(1, 2)) n = 4090 + s.draw(12); int i = 0; while (t.size() < n) t += fmt("Figure%d: %d kB\n", i++, i * 7); if (s.chance(1, 2)) t.resize(n); }   // later kernels tell more
  meminfo_put(m); meminfo_raw(t);
}

struct Item { MMap q; double ln; };
static void judge(Ctx& c, const std::vector<Item>& order, const Budget& b, const std::string& what) {
  std::vector<Req> v = log_reqs(); size_t must = 0, may = 0; double used = 0; bool fits = true;
  auto kbs = [](uint64_t l) { return (double)(l / 1024 + (l % 1024 != 0)); };
  for (auto& x : order) { if (!(x.ln < 0)) break; used += kbs(x.q.len); if (fits && used <= b.lo) must++; else fits = false; if (used <= b.hi && may + 1 == (size_t)(&x - &order[0]) + 1) may++; }
  c.note(what + fmt(" -> budget %.1f, %zu sections, %zu needed, chosen %zu", (b.lo + b.hi) / 2, order.size(), (size_t)std::count_if(order.begin(), order.end(), [](const Item& i) { return i.ln < 0; }), v.size()));
  double tot = 0; for (size_t i = 0; i < v.size(); i++) {
    if (i >= order.size()) c.fail("extra", "more requests than sections");
    if (!(order[i].ln < 0)) c.fail("not-needed", fmt("section %zu (%s) is not needed but was chosen; ", i, order[i].q.str().c_str()) + what);
    if (v[i].path != printable(order[i].q.path, 4000) || v[i].off != order[i].q.off || v[i].len != order[i].q.len) c.fail("not-a-prefix", fmt("request %zu is %s@%llu+%llu, expected %s; ", i, v[i].path.c_str(), (unsigned long long)v[i].off, (unsigned long long)v[i].len, order[i].q.str().c_str()) + what);
    tot += kbs(v[i].len);
  }
  if (v.size() > may) c.fail("over-budget", fmt("%zu sections (%.0f kB) chosen, the budget of %.1f kB allows %zu; ", v.size(), tot, (b.lo + b.hi) / 2, may) + what);
  if (v.size() < must) c.fail("under-budget", fmt("%zu sections (%.0f kB) chosen, the budget of %.1f kB allows %zu; ", v.size(), tot, (b.lo + b.hi) / 2, must) + what);
  c.count(0, (uint32_t)v.size());
}
static bool cut(const std::vector<Item>& o, const Budget& b) { double n = 0; bool some = false, stop = false; for (auto& x : o) { if (!(x.ln < 0)) break; n += x.q.len / 1024.0; if (n <= b.lo) some = true; else stop = true; } return some && stop; }

// the selection itself, on any list sorted by need
static void select_(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); int rounds = 1 + s.small(4); bool nt = false;
  for (int r = 0; r < rounds; r++) {
    bool exact = !s.chance(1, 4); Conf k; gen_conf(s, k); k.sort = 0; k.procs = 0; conf_to_sut(k); MemInfo m = gen_mem(s, exact); put_mem(s, m); Budget b = budget(k, m, exact);
    int n = s.chance(1, 8) ? s.range(0, 200) : s.small(14); std::vector<Item> it; double ln = -(double)s.draw(50); bool posi = false;
    int npos = n ? (int)s.draw(n + 1) : 0; if (s.chance(1, 3)) npos = n;
    double target = std::max(1.0, (b.lo + b.hi) / 2);
    for (int i = 0; i < n; i++) {
      Item x; x.q.path = ROOT "/usr/lib/" + fmt("f%d.%d", r, i); mkfile(x.q.path, 4096); x.q.off = s.draw(5) * 4096;
      switch (s.weighted({3, 3, 2, 1, 1})) {
        case 0: x.q.len = 1 + s.draw(8192); break; case 1: x.q.len = (uint64_t)(target * 1024 / (1 + s.draw(6))); break; case 2: x.q.len = 1024 * (1 + s.draw(5000)) + s.draw(3) - 1; break;
        case 3: x.q.len = (1ull << 31) * (1 + s.draw(3000)) + s.draw(5000); break;
        default: { double u = 0; for (auto& y : it) u += y.q.len / 1024 + (y.q.len % 1024 != 0); double left = target - u; x.q.len = left >= 1 ? (uint64_t)left * 1024 + s.draw(3) - 1 : 1; }   // exactly what is left, or one byte off
      }
      if (!x.q.len) x.q.len = 1;
      if (i >= npos && !posi) { posi = true; ln = 0; }
      x.ln = ln; if (posi) ln += s.chance(1, 2) ? 0 : 0.5; else { ln += s.chance(1, 3) ? 0 : -ln / (2 + s.draw(5)); if (ln >= 0) ln = -1e-9; }
      it.push_back(x);
    }
    GPtrArray* arr = g_ptr_array_new(); std::vector<preload_map_t> ms(it.size()); std::vector<std::string> keep;
    for (size_t i = 0; i < it.size(); i++) { memset(&ms[i], 0, sizeof ms[i]); ms[i].path = (char*)it[i].q.path.c_str(); ms[i].offset = it[i].q.off; ms[i].length = it[i].q.len; ms[i].lnprob = it[i].ln; ms[i].block = -1; ms[i].refcount = 1; g_ptr_array_add(arr, &ms[i]); }
    log_reset(); preload_prophet_readahead(arr); g_ptr_array_free(arr, TRUE);
    judge(c, it, b, mem_str(m) + "; " + pct_str(k)); if (cut(it, b)) { nt = true; c.count(1, 1); } c.label(b.hi <= 0 ? "no budget" : cut(it, b) ? "cut" : "all or nothing"); if (!m.has_available) c.label("available estimated"); if (m.has_available && m.available == 0) c.label("available zero"); if (!exact) c.label("any figures");
  }
  if (nt) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900)); }
}
// very many sections, and a budget for nearly all or all of them
static void many(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); Conf k; k.memtotal = 0; k.memfree = 100; k.memcached = k.membuffers = 0; k.sort = 0; k.procs = 0; conf_to_sut(k); int n = 1000 + (int)s.draw(s.chance(1, 2) ? 9000 : 30000); std::string f = ROOT "/usr/lib/many"; mkfile(f, 4096);
  std::vector<Item> it; double tot = 0; uint64_t off = 0; int need = s.chance(1, 2) ? n : (int)s.draw(n + 1); for (int i = 0; i < n; i++) { Item x; x.q.path = f; x.q.off = off; x.q.len = 1024 * (1 + i % 7); off += x.q.len + 4096; x.ln = i < need ? -(double)(n - i) : 0; it.push_back(x); if (i < need) tot += 1 + i % 7; }
  MemInfo m; m.total = 400000000; m.free_ = m.available = (long)(s.chance(1, 2) ? tot + (double)s.draw(3) - 1 : tot * s.draw(1000) / 1000); m.free_ = m.available = std::max(0L, m.available / 100 * 100 + 100 * (long)s.draw(2)); meminfo_put(m);
  std::vector<preload_map_t> ms(n); GPtrArray* arr = g_ptr_array_new(); for (int i = 0; i < n; i++) { memset(&ms[i], 0, sizeof ms[i]); ms[i].path = (char*)it[i].q.path.c_str(); ms[i].offset = it[i].q.off; ms[i].length = it[i].q.len; ms[i].lnprob = it[i].ln; ms[i].block = -1; ms[i].refcount = 1; g_ptr_array_add(arr, &ms[i]); }
  log_reset(); preload_prophet_readahead(arr); g_ptr_array_free(arr, TRUE); judge(c, it, budget(k, m, true), mem_str(m)); c.nontrivial(); c.label("many"); c.sample(std::string(g_slot->desc).substr(0, 300));
}
// a whole prediction: needs computed from a model, the order and the budget decide
static void whole(Src& s, Ctx& c) {
  sut_init(); GenOpts o; o.max_exes = 8; o.max_maps = 20; o.odd = false; o.separate_files = true; o.big = false; Model m = gen_model(s, o); for (auto& q : m.maps) mkfile(q.path, 4096);
  Ref r; Conf k; gen_conf(s, k); if (s.chance(1, 2)) { k.memtotal = 0; k.memfree = 100; k.memcached = k.membuffers = 0; } k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; std::vector<std::string> run, all; for (auto& e : m.exes) { all.push_back(e.first); if (s.chance(1, 4)) run.push_back(e.first); }
  load_both(r, m, k, run, &s); if (k.vomm() && !all.empty()) { int n = s.small(5); for (int i = 0; i < n; i++) { auto& p = all[s.draw(all.size())]; vomm_update(sut_exe(p)); } }
  for (int q = 0; q < 3; q++) {
    bool exact = !s.chance(1, 4); MemInfo mi = gen_mem(s, exact); if (s.chance(2, 3)) { mi.available = (long)s.draw(300) * 100; mi.has_available = true; } put_mem(s, mi); log_reset(); preload_prophet_predict(nullptr);
    std::vector<Item> it; double last = -1e300; for (guint i = 0; i < state->maps_arr->len; i++) { auto* x = (preload_map_t*)g_ptr_array_index(state->maps_arr, i); it.push_back({MMap{x->path, x->offset, x->length}, x->lnprob}); if (x->lnprob < last) c.fail("not-sorted", fmt("section %u of need %g follows one of need %g", i, -x->lnprob, -last)); last = x->lnprob; }
    Budget b = budget(k, mi, exact); judge(c, it, b, mem_str(mi) + "; " + pct_str(k)); if (cut(it, b)) { c.nontrivial(); c.count(1, 1); c.label("cut"); }
  }
  c.sample(std::string(g_slot->desc).substr(0, 900));
}
CheckDef g_check = {"C11", "a round in which some needed sections are chosen and some do not fit", {{"select", select_, 9000, 240000}, {"whole", whole, 3500, 80000}, {"many", many, 60, 1500}}, {"sections chosen", "rounds cut by the budget"}};
