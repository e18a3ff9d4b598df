// C12: prefetch requests cover exactly the chosen file ranges, in the configured order.
#include "gen.h"
#include <sys/stat.h>
struct File { std::string path; int kind = 0, open_err = 0, ra_err = 0, fib = 0, stat_err = 0; uint64_t ino = 0; };   // kind: 0 file 1 missing 2 fifo 3 directory 4 dangling link 5 link to file 6 socketless empty file
struct Sec { int f; uint64_t off, len; };
static std::map<std::string, int> open_err, ra_err, fib, fstat_err; static std::map<std::string, uint64_t> inos;
static std::vector<File> gen_files(Src& s, int nf) {
  std::vector<File> fs; fstat_err.clear(); open_err.clear(); ra_err.clear(); fib.clear(); inos.clear(); static const uint64_t in[] = {1, 2, 0x7fffffff, 0x80000000u, 0x80000005u, 0xffffffffu, 1ull << 32, (1ull << 32) + 7, 1ull << 33, 1ull << 50, 12345}; int odd_inos = s.chance(1, 3); static const int oe[] = {EACCES, ENOENT, EMFILE, ENFILE, EPERM, ELOOP, EIO, ENOMEM, ENXIO}; static const int re[] = {EINVAL, ENOSYS, EOPNOTSUPP, EIO, EBADF, EINVAL, ENOSYS, EOPNOTSUPP};
  for (int i = 0; i < nf; i++) { File f; f.path = ROOT + std::string(s.chance(1, 2) ? "/usr/lib/" : s.chance(1, 2) ? "/l/" : "/usr/lib/x/") + odd_name(s, i, s.chance(1, 3)); if (s.chance(1, 6)) f.kind = 1 + (int)s.draw(6); if (s.chance(1, 8)) f.open_err = oe[s.draw(9)]; if (s.chance(1, 4)) f.ra_err = re[s.draw(8)]; if (s.chance(1, 12)) f.stat_err = s.chance(1, 2) ? EIO : ESTALE; f.fib = s.chance(1, 5) ? 0 : s.chance(1, 6) ? -EPERM : 1 + (int)s.draw(s.chance(1, 2) ? 40 : 1000000000); fs.push_back(f); }
  std::vector<int> ord(nf); for (int i = 0; i < nf; i++) ord[i] = i; for (int i = nf; i-- > 1;) std::swap(ord[i], ord[s.draw(i + 1)]);
  for (int i : ord) { File& f = fs[i]; std::string rp = realpath_of(f.path); mkfile(f.path, s.chance(1, 3) ? 0 : s.draw(1 << 20));
    if (f.kind >= 1 && f.kind <= 5) { std::string t = f.path + "~"; if (f.kind == 5) mkfile(t, 100); rmfile(f.path); if (f.kind == 2) mkfifo(rp.c_str(), 0644); if (f.kind == 3) mkdir(rp.c_str(), 0755); if (f.kind == 4 && symlink("/nonexistent/target", rp.c_str())) {} if (f.kind == 5 && symlink((f.path.substr(f.path.rfind('/') + 1) + "~").c_str(), rp.c_str())) {} }
    if (f.open_err) open_err[f.path] = f.open_err;
  }
  for (auto& f : fs) { struct stat st; std::string rp = realpath_of(f.path); if (!::stat(rp.c_str(), &st)) f.ino = st.st_ino; std::string seen = f.kind == 5 ? f.path + "~" : f.path; if (odd_inos && s.chance(2, 3)) inos[seen] = inos[f.path] = f.ino = in[s.draw(11)] + s.draw(3); if (f.ra_err) ra_err[seen] = f.ra_err; fib[seen] = f.fib; if (f.stat_err) fstat_err[seen] = f.stat_err; }
  W.fstat_errno = &fstat_err; W.open_errno = &open_err; W.ra_errno = &ra_err; W.fibmap = &fib; W.fake_fibmap = true; W.inos = &inos; return fs;
}
static std::vector<Sec> gen_secs(Src& s, int nf, int n) {
  std::vector<Sec> v; static const uint64_t offs[] = {0, 4096, 8192, 100, 4095, 4097, 65536, 1u << 31, 1ull << 32, (1ull << 40) + 512};
  for (int i = 0; i < n; i++) {
    Sec x; x.f = (int)s.draw(nf);
    if (!v.empty() && s.chance(1, 2)) {   // relate to an earlier section of a file: touching, overlapping, inside, around, one byte apart
      const Sec& y = v[s.draw(v.size())]; x.f = y.f; uint64_t e = y.off + y.len;
      switch (s.draw(8)) { case 0: x.off = e; x.len = 1 + s.draw(9000); break; case 1: x.off = e + 1; x.len = 1 + s.draw(9000); break; case 2: x.off = y.off + s.draw(y.len); x.len = 1 + s.draw(9000); break; case 3: x.off = y.off + s.draw(y.len); x.len = 1 + s.draw(e - x.off); break;
        case 4: x.off = y.off - std::min<uint64_t>(y.off, s.draw(9000)); x.len = e - x.off + s.draw(9000); break; case 5: x = y; break; case 6: x.off = y.off; x.len = 1 + s.draw(2 * y.len); break; default: x.off = y.off - std::min<uint64_t>(y.off, 1 + s.draw(9000)); x.len = y.off > x.off ? y.off - x.off - s.draw(2) : 1; if (!x.len) x.len = 1; }
    } else { x.off = s.chance(1, 2) ? s.draw(16) * 4096 : offs[s.draw(10)]; x.len = s.chance(1, 8) ? 1 + s.draw(1ull << 33) : s.chance(1, 4) ? 1 + s.draw(10000) : (1 + s.draw(8)) * 4096; }
    v.push_back(x);
  }
  return v;
}
static std::string secs_str(const std::vector<File>& fs, const std::vector<Sec>& l) { std::string t; for (size_t i = 0; i < l.size() && i < 30; i++) t += fmt(" %s@%llu+%llu", printable(fs[l[i].f].path.substr(strlen(ROOT)), 60).c_str(), (unsigned long long)l[i].off, (unsigned long long)l[i].len); return t; }
// list: the sections in the order given (all strategies but 0 may reorder them)
static int judge(Ctx& c, const std::vector<File>& fs, const std::vector<Sec>& list, const Conf& k, const std::string& what) {
  std::map<std::string, Ranges> must, may, advm; std::map<std::string, const File*> by; const uint64_t P = 4096;
  auto seen = [](const File& f) { return printable(f.kind == 5 ? f.path + "~" : f.path, 4000); };
  for (auto& x : list) {
    const File& f = fs[x.f]; std::string p = seen(f); by[p] = &f; may[p].add(x.off, x.off + x.len); bool unsup = f.ra_err == EINVAL || f.ra_err == ENOSYS || f.ra_err == EOPNOTSUPP;
    bool opens = !f.open_err && (f.kind == 0 || f.kind == 5 || f.kind == 6); if (!opens) { if (f.open_err || f.kind == 1 || f.kind == 4) may[p]; continue; }
    if (!unsup) must[p].add(x.off, x.off + x.len); else advm[p].add(x.off & ~(P - 1), (x.off + x.len + P - 1) & ~(P - 1));
  }
  auto v = log_reqs(); std::vector<Req> ra, ma; for (auto r : v) { r.err = 0; (r.kind == 'R' ? ra : ma).push_back(r); } auto got = cover(ra), adv = cover(ma);
  for (auto& m : must) if (!got[m.first].contains(m.second)) c.fail("range-missing", fmt("%s: chosen%s, requested%s; ", m.first.c_str(), m.second.str().c_str(), got[m.first].str().c_str()) + what);
  for (auto& g : got) if (!g.second.r.empty() && !may[g.first].contains(g.second)) c.fail("range-extra", fmt("%s: requested%s, chosen%s; ", g.first.c_str(), g.second.str().c_str(), may[g.first].str().c_str()) + what);
  for (auto& m : advm) if (!(adv[m.first] == m.second)) c.fail("fallback", fmt("%s does not support readahead: advised%s, expected%s; ", m.first.c_str(), adv[m.first].str().c_str(), m.second.str().c_str()) + what);
  for (auto& g : adv) if (!g.second.r.empty() && !advm.count(g.first) && by.count(g.first) && by[g.first]->kind != 2 && by[g.first]->kind != 3) c.fail("fallback-extra", fmt("%s: advised%s though readahead works; ", g.first.c_str(), g.second.str().c_str()) + what);
  if (k.procs > 0) return (int)ra.size();
  // order
  size_t j = 0; std::string lastp; uint64_t lasto = 0; long long lastb = -1; bool first = true;
  std::map<std::string, std::string> orig; for (auto& f : fs) orig[seen(f)] = f.path;
  for (auto& r : ra) {
    const File* f = by.count(r.path) ? by[r.path] : nullptr; if (!f) c.fail("range-extra", r.path + " was not chosen; " + what);
    if (k.sort == 0) { while (j < list.size() && !(fs[list[j].f].path == f->path && list[j].off == r.off)) j++; if (j == list.size()) c.fail("order-need", fmt("request %s@%llu comes too late; ", r.path.c_str(), (unsigned long long)r.off) + what); j++; }
    else if (k.sort == 1) { if (!first && (f->path < lastp || (f->path == lastp && r.off < lasto))) c.fail("order-path", fmt("request %s@%llu comes after %s@%llu; ", r.path.c_str(), (unsigned long long)r.off, printable(lastp).c_str(), (unsigned long long)lasto) + what); lastp = f->path; lasto = r.off; }
    else if (f->stat_err) continue;   // no position is known
    else { long long b = (long long)f->ino; if (k.sort == 3 && f->fib > 0) b = f->fib + (long long)(r.off / 4096); if (b < lastb) c.fail(k.sort == 2 ? "order-inode" : "order-block", fmt("request %s@%llu of block %lld comes after block %lld; ", r.path.c_str(), (unsigned long long)r.off, b, lastb) + what); lastb = b; }
    first = false;
  }
  return (int)ra.size();
}
static bool touching(const std::vector<Sec>& l) { for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) if (l[i].f == l[j].f && l[i].off <= l[j].off + l[j].len && l[j].off <= l[i].off + l[i].len) return true; return false; }
static int nfiles(const std::vector<Sec>& l) { std::set<int> z; for (auto& x : l) z.insert(x.f); return (int)z.size(); }

// lists of arbitrary sections, with repeats; block numbers are remembered by the sections from call to call
static void list_(Src& s, Ctx& c) {
  sut_init(); preload_state_load(""); int nf = 1 + s.small(7); auto fs = gen_files(s, nf); auto pool = gen_secs(s, nf, 1 + s.small(15));
  Conf k; k.sort = (int)s.draw(4); k.procs = s.weighted({5, 1, 1, 1}); if (k.procs == 3) k.procs = s.chance(1, 2) ? 30 : -4; conf_to_sut(k);
  std::vector<preload_map_t> ms(pool.size()); for (size_t i = 0; i < pool.size(); i++) { memset(&ms[i], 0, sizeof ms[i]); ms[i].path = (char*)fs[pool[i].f].path.c_str(); ms[i].offset = pool[i].off; ms[i].length = pool[i].len; ms[i].block = -1; ms[i].refcount = 1; }
  int rounds = 1 + s.small(3); bool nt = false;
  for (int r = 0; r < rounds; r++) {
    std::vector<preload_map_t*> a; std::vector<Sec> l; bool all = s.chance(1, 2);
    for (size_t i = 0; i < pool.size(); i++) if (all || s.chance(1, 2)) { a.push_back(&ms[i]); l.push_back(pool[i]); }
    for (size_t i = a.size(); i-- > 1;) if (s.chance(1, 3)) { size_t j = s.draw(i + 1); std::swap(a[i], a[j]); std::swap(l[i], l[j]); }
    std::string what = fmt("sort %d procs %d:", k.sort, k.procs) + secs_str(fs, l); c.note(what); log_reset(); preload_readahead(a.data(), (int)a.size());
    int n = judge(c, fs, l, k, what); c.count(0, l.size()); c.count(1, n); if (touching(l) && nfiles(l) > 1 && n) nt = true;
    if (count_children()) c.fail("children", "workers left after the round");
  }
  for (auto& f : fs) { if (f.open_err || f.kind) c.label("special or failing file"); if (f.ra_err) c.label("failing readahead"); }
  c.label(fmt("sort=%d", k.sort)); c.label(k.procs > 0 ? "parallel" : "serial"); if (nt) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900)); }
}
// sections of the model, with the configuration reloaded in between
static void reload(Src& s, Ctx& c) {
  sut_init(); int nf = 1 + s.small(5); auto fs = gen_files(s, nf); auto pool = gen_secs(s, nf, 1 + s.small(12));
  Model m; std::string x = ROOT "/usr/bin/x"; m.exes[x]; std::map<MMap, int> idx; for (size_t i = 0; i < pool.size(); i++) { MMap q{fs[pool[i].f].path, pool[i].off, pool[i].len}; if (m.maps.insert(q).second) { m.exes[x].maps.push_back(q); idx[q] = (int)i; } } std::sort(m.exes[x].maps.begin(), m.exes[x].maps.end());
  Conf k; k.sort = (int)s.draw(4); conf_to_sut(k); write_file(realpath_of(STATEF), emit_state(m, &s)); preload_state_load(STATEF); preload_state_prepare_algorithm();
  if (state->maps_arr->len != m.maps.size()) c.fail("load", "model not loaded"); int rounds = 2 + s.small(3); bool nt = false; int changes = 0;
  for (int r = 0; r < rounds; r++) {
    std::vector<preload_map_t*> a; std::vector<Sec> l; for (guint i = 0; i < state->maps_arr->len; i++) if (!s.chance(1, 4)) { auto* q = (preload_map_t*)g_ptr_array_index(state->maps_arr, i); a.push_back(q); l.push_back(pool[idx[MMap{q->path, q->offset, q->length}]]); }
    std::string what = fmt("sort %d:", k.sort) + secs_str(fs, l); c.note(what); log_reset(); if (!a.empty()) preload_readahead(a.data(), (int)a.size());
    int n = judge(c, fs, l, k, what); c.count(0, l.size()); c.count(1, n); if (changes && touching(l) && nfiles(l) > 1 && n) nt = true;
    if (s.chance(2, 3)) { int o = k.sort; k.sort = (int)s.draw(4); if (s.chance(1, 6)) { write_file(realpath_of(CONFF), "[system]\nsortstrategy = what\n"); preload_conf_load(CONFF, FALSE); k.sort = o; } else conf_to_sut(k); if (o != k.sort) changes++; }
  }
  c.label(changes ? "strategy changed" : "same strategy"); if (nt) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900)); }
}
// whole daemon: requests of every round cover what is needed, whatever the strategy and the number of workers (shared with C08/C10 via the reference)
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 5; p.max_lives = 2; p.min_cycles = 4; p.max_cycles = 16; p.max_events = 3; p.algo = 2; p.vomm_exact = false; p.check_ra = true; p.dup_maps = s.chance(1, 2); p.procs = s.chance(1, 2) ? 0 : 1 + (int)s.draw(4); p.reload = s.chance(1, 3); p.rename_maps = s.chance(1, 3);
  SimStats st = run_history(s, c, p); c.count(2, st.predictions); if (st.predictions) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200)); }
}
CheckDef g_check = {"C12", "list, reload: sections of two files or more, some touching, and a request made (reload: after the strategy changed); history: a round that prefetches",
  {{"list", list_, 6000, 200000}, {"reload", reload, 2500, 80000}, {"history", history, 500, 12000}}, {"sections", "requests", "rounds that prefetch"}, 10};
