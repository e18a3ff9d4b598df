#include "model.h"
#include "sut.h"
#include <cinttypes>
#include <algorithm>

MMk MMk::swapped() const {
  static const int sw[4] = {0, 2, 1, 3}; MMk r = *this;
  for (int i = 0; i < 4; i++) { r.ttl[sw[i]] = ttl[i]; for (int j = 0; j < 4; j++) r.w[sw[i]][sw[j]] = w[i][j]; }
  if (state >= 0) r.state = sw[state];
  return r;
}
std::string to_uri(const std::string& p) {
  // g_filename_to_uri keeps unreserved characters and "!$&'()*+,;=:@/" in the path
  std::string o = "file://";
  for (unsigned char c : p) {
    if (isalnum(c) || strchr("-_.!~*'()/&=:@+$,", c)) { if (c) { o += (char)c; continue; } }
    o += fmt("%%%02X", c);
  }
  return o;
}
bool from_uri(const std::string& u, std::string& p) {
  if (u.compare(0, 7, "file://")) return false;
  p.clear();
  for (size_t i = 7; i < u.size(); i++) {
    if (u[i] == '%') { if (i + 2 >= u.size() || !isxdigit((unsigned char)u[i + 1]) || !isxdigit((unsigned char)u[i + 2])) return false; p += (char)strtol(u.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else p += u[i];
  }
  return !p.empty() && p[0] == '/';
}
static std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> v; size_t p = 0;
  while (true) { size_t e = s.find(c, p); if (e == std::string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, e - p)); p = e + 1; }
  return v;
}
static bool num(const std::string& s, long long& v) { char* e; if (s.empty()) return false; v = strtoll(s.c_str(), &e, 10); return !*e; }
static bool dbl(const std::string& s, double& v) { char* e; if (s.empty()) return false; v = strtod(s.c_str(), &e); return !*e; }

bool parse_state(const std::string& t, Model& m, std::string& err) {
  m = Model();
  if (t.empty() || t.back() != '\n') { err = t.empty() ? "empty file" : "last line incomplete"; return false; }
  std::map<long long, MMap> maps; std::map<long long, std::string> exes;
  std::map<long long, VNode*> nodes; nodes[0] = &m.vomm; std::map<VNode*, long long> nid;
  int ln = 0; size_t p = 0;
  auto bad = [&](const char* w) { err = fmt("line %d: %s", ln, w); return false; };
  while (p < t.size()) {
    size_t e = t.find('\n', p); std::string l = t.substr(p, e - p); p = e + 1; ln++;
    if (l.empty() || l[0] == '#') continue;
    auto f = split(l, '\t'); long long a, b, c, d, x; double y;
    if (f[0] == "PRELOAD") { if (ln != 1 || f.size() != 3 || !num(f[2], a)) return bad("bad header"); m.time = a; }
    else if (ln == 1) return bad("no header");
    else if (f[0] == "MAP") {
      if (f.size() != 7 || !num(f[1], a) || !num(f[2], b) || !num(f[3], c) || !num(f[4], d) || !num(f[5], x)) return bad("bad MAP");
      MMap q; q.off = strtoull(f[3].c_str(), 0, 10); q.len = strtoull(f[4].c_str(), 0, 10);
      if (!from_uri(f[6], q.path)) return bad("bad MAP uri");
      if (maps.count(a)) return bad("duplicate MAP index");
      if (!m.maps.insert(q).second) return bad("duplicate MAP");
      maps[a] = q; m.map_update[q] = b;
    } else if (f[0] == "BADEXE") {
      std::string q; if (f.size() != 4 || !num(f[1], a) || !num(f[2], b) || !from_uri(f[3], q)) return bad("bad BADEXE"); m.bad[q] = a;
    } else if (f[0] == "EXE") {
      std::string q; if (f.size() != 6 || !num(f[1], a) || !num(f[2], b) || !num(f[3], c) || !num(f[4], d) || !from_uri(f[5], q)) return bad("bad EXE");
      if (exes.count(a)) return bad("duplicate EXE index");
      if (m.exes.count(q)) return bad("duplicate EXE");
      exes[a] = q; m.exes[q].time = c; m.exes[q].update_time = b;
    } else if (f[0] == "EXEMAP") {
      if (f.size() != 4 || !num(f[1], a) || !num(f[2], b) || !dbl(f[3], y)) return bad("bad EXEMAP");
      if (!exes.count(a) || !maps.count(b)) return bad("EXEMAP index");
      m.exes[exes[a]].maps.push_back(maps[b]);
    } else if (f[0] == "MARKOV") {
      if (f.size() != 24 || !num(f[1], a) || !num(f[2], b) || !num(f[3], c)) return bad("bad MARKOV");
      if (!exes.count(a) || !exes.count(b) || a == b) return bad("MARKOV index");
      MMk k; k.time = c;
      for (int i = 0; i < 4; i++) if (!dbl(f[4 + i], k.ttl[i])) return bad("bad MARKOV ttl");
      for (int i = 0; i < 16; i++) { if (!num(f[8 + i], x)) return bad("bad MARKOV weight"); k.w[i / 4][i % 4] = (int)x; }
      std::string A = exes[a], B = exes[b]; if (m.mk.count({std::min(A, B), std::max(A, B)})) return bad("duplicate MARKOV");
      m.put_mk(A, B, k);
    } else if (f[0] == "VOMMNODE") {
      if (f.size() != 5 || !num(f[1], a) || !num(f[2], b) || !num(f[3], c) || !num(f[4], d)) return bad("bad VOMMNODE");
      if (!exes.count(b) || !nodes.count(d) || nodes.count(a)) return bad("VOMMNODE index");
      VNode* par = nodes[d]; if (par->ch.count(exes[b])) return bad("duplicate VOMMNODE");
      VNode* n = &par->ch[exes[b]]; n->count = (int)c; nodes[a] = n;
    } else return bad("unknown tag");
  }
  if (ln == 0) { err = "empty"; return false; }
  for (auto& x : m.exes) std::sort(x.second.maps.begin(), x.second.maps.end());
  return true;
}

std::string emit_state(const Model& m, Src* sh, const char* version) {
  std::string o = fmt("PRELOAD\t%s\t%lld\n", version, m.time);
  std::map<MMap, int> mi; std::map<std::string, int> ei; int n = 0;
  auto order = [&](size_t k) { std::vector<size_t> v(k); for (size_t i = 0; i < k; i++) v[i] = i; if (sh) for (size_t i = k; i > 1; i--) std::swap(v[i - 1], v[sh->draw(i)]); return v; };
  std::vector<MMap> ms(m.maps.begin(), m.maps.end());
  for (size_t i : order(ms.size())) { auto& q = ms[i]; mi[q] = ++n; long long u = m.map_update.count(q) ? m.map_update.at(q) : -1; o += fmt("MAP\t%d\t%lld\t%llu\t%llu\t-1\t", n, u, (unsigned long long)q.off, (unsigned long long)q.len) + to_uri(q.path) + "\n"; }
  for (auto& b : m.bad) o += fmt("BADEXE\t%lld\t-1\t", b.second) + to_uri(b.first) + "\n";
  std::vector<std::string> es; for (auto& e : m.exes) es.push_back(e.first);
  n = 0;
  for (size_t i : order(es.size())) { ei[es[i]] = ++n; auto& e = m.exes.at(es[i]); o += fmt("EXE\t%d\t%lld\t%lld\t-1\t", n, e.update_time, e.time) + to_uri(es[i]) + "\n"; }
  for (auto& e : m.exes) for (auto& q : e.second.maps) o += fmt("EXEMAP\t%d\t%d\t1\n", ei[e.first], mi[q]);
  for (auto& k : m.mk) {
    bool sw = sh && sh->draw(2); MMk x = sw ? k.second.swapped() : k.second;
    int a = ei[k.first.first], b = ei[k.first.second]; if (sw) std::swap(a, b);
    o += fmt("MARKOV\t%d\t%d\t%lld", a, b, x.time);
    for (int i = 0; i < 4; i++) o += fmt("\t%.6g", x.ttl[i]);
    for (int i = 0; i < 16; i++) o += fmt("\t%d", x.w[i / 4][i % 4]);
    o += "\n";
  }
  int id = 0;
  std::function<void(const VNode&, int)> rec = [&](const VNode& v, int par) {
    for (auto& c : v.ch) { int me = ++id; o += fmt("VOMMNODE\t%d\t%d\t%d\t%d\n", me, ei.count(c.first) ? ei[c.first] : -1, c.second.count, par); rec(c.second, me); }
  };
  rec(m.vomm, 0);
  return o;
}

std::string vnode_str(const VNode& n, const std::string& pre) {
  std::string o; for (auto& c : n.ch) { o += pre + printable(c.first) + fmt(" x%d\n", c.second.count) + vnode_str(c.second, pre + "  "); } return o;
}
std::string model_str(const Model& m) {
  std::string o = fmt("time=%lld\n", m.time);
  for (auto& e : m.exes) { o += fmt("exe %s time=%lld maps:", printable(e.first).c_str(), e.second.time); for (auto& q : e.second.maps) o += " " + q.str(); o += "\n"; }
  for (auto& b : m.bad) o += "bad " + printable(b.first) + "\n";
  for (auto& k : m.mk) {
    o += "pair " + printable(k.first.first) + " / " + printable(k.first.second) + fmt(" time=%lld st=%d ttl=%g,%g,%g,%g w=", k.second.time, k.second.state, k.second.ttl[0], k.second.ttl[1], k.second.ttl[2], k.second.ttl[3]);
    for (int i = 0; i < 16; i++) o += fmt("%d%s", k.second.w[i / 4][i % 4], i % 4 == 3 ? ";" : ","); o += "\n";
  }
  return o + "sequences:\n" + vnode_str(m.vomm, " ");
}
static bool near(double a, double b, double tol) { if (a == b || (std::isnan(a) && std::isnan(b))) return true; return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static std::string diff_v(const VNode& a, const VNode& b, const std::string& path) {
  for (auto& c : a.ch) {
    auto it = b.ch.find(c.first); std::string p = path + "/" + printable(c.first);
    if (it == b.ch.end()) return fmt("sequence %s (count %d) only in first", p.c_str(), c.second.count);
    if (it->second.count != c.second.count) return fmt("sequence %s count %d vs %d", p.c_str(), c.second.count, it->second.count);
    std::string d = diff_v(c.second, it->second, p); if (!d.empty()) return d;
  }
  for (auto& c : b.ch) if (!a.ch.count(c.first)) return fmt("sequence %s/%s (count %d) only in second", path.c_str(), printable(c.first).c_str(), c.second.count);
  return "";
}
std::string diff_models(const Model& a, const Model& b, const CmpOpts& o) {
  if (o.time && a.time != b.time) return fmt("model time %lld vs %lld", a.time, b.time);
  if (o.maps) {
    for (auto& q : a.maps) if (!b.maps.count(q)) return "section only in first: " + q.str();
    for (auto& q : b.maps) if (!a.maps.count(q)) return "section only in second: " + q.str();
    if (o.update_time) for (auto& q : a.map_update) if (b.map_update.count(q.first) && b.map_update.at(q.first) != q.second) return "section update time " + q.first.str();
  }
  if (o.exes) {
    for (auto& e : a.exes) {
      auto it = b.exes.find(e.first); if (it == b.exes.end()) return "program only in first: " + printable(e.first);
      if (o.exe_time && it->second.time != e.second.time) return fmt("running time of %s: %lld vs %lld", printable(e.first).c_str(), e.second.time, it->second.time);
      if (o.update_time && it->second.update_time != e.second.update_time) return fmt("update time of %s: %lld vs %lld", printable(e.first).c_str(), e.second.update_time, it->second.update_time);
      if (o.exe_maps) {
        std::set<MMap> x(e.second.maps.begin(), e.second.maps.end()), y(it->second.maps.begin(), it->second.maps.end());
        for (auto& q : x) if (!y.count(q)) return "section of " + printable(e.first) + " only in first: " + q.str();
        for (auto& q : y) if (!x.count(q)) return "section of " + printable(e.first) + " only in second: " + q.str();
      }
    }
    for (auto& e : b.exes) if (!a.exes.count(e.first)) return "program only in second: " + printable(e.first);
  }
  if (o.bad) {
    for (auto& e : a.bad) if (!b.bad.count(e.first)) return "uninteresting program only in first: " + printable(e.first);
    for (auto& e : b.bad) if (!a.bad.count(e.first)) return "uninteresting program only in second: " + printable(e.first);
  }
  if (o.mk) {
    for (auto& k : a.mk) {
      std::string nm = printable(k.first.first) + " / " + printable(k.first.second);
      auto it = b.mk.find(k.first); if (it == b.mk.end()) return "pair only in first: " + nm;
      if (o.mk_time && k.second.time != it->second.time) return fmt("simultaneous time of %s: %lld vs %lld", nm.c_str(), k.second.time, it->second.time);
      if (!o.mk_stats) continue;
      if (k.second.state >= 0 && it->second.state >= 0 && k.second.state != it->second.state) return fmt("state of pair %s: %d vs %d", nm.c_str(), k.second.state, it->second.state);
      for (int i = 0; i < 4; i++) {
        if (!near(k.second.ttl[i], it->second.ttl[i], o.tol)) return fmt("mean dwell of %s in state %d: %.9g vs %.9g", nm.c_str(), i, k.second.ttl[i], it->second.ttl[i]);
        for (int j = 0; j < 4; j++) if (k.second.w[i][j] != it->second.w[i][j]) return fmt("count %d->%d of %s: %d vs %d", i, j, nm.c_str(), k.second.w[i][j], it->second.w[i][j]);
      }
    }
    for (auto& k : b.mk) if (!a.mk.count(k.first)) return "pair only in second: " + printable(k.first.first) + " / " + printable(k.first.second);
  }
  if (o.vomm) return diff_v(a.vomm, b.vomm, "");
  return "";
}

struct DumpV { std::map<gint64, std::string> byseq; std::map<gint64, VNode*> node; bool bad = false; };
static void dv(gint64 id, gint64 seq, int count, gint64 parent, gpointer u) {
  DumpV* d = (DumpV*)u; auto p = d->node.find(parent);
  if (p == d->node.end() || !d->byseq.count(seq)) { d->bad = true; return; }
  VNode* n = &p->second->ch[d->byseq[seq]]; n->count = count; d->node[id] = n;
}
Model dump_sut() {
  Model m; m.time = state->time;
  GHashTableIter it; gpointer k, v;
  g_hash_table_iter_init(&it, state->maps);
  while (g_hash_table_iter_next(&it, &k, &v)) { auto* q = (preload_map_t*)k; MMap x{q->path, q->offset, q->length}; m.maps.insert(x); m.map_update[x] = q->update_time; }
  if (state->bad_exes) { g_hash_table_iter_init(&it, state->bad_exes); while (g_hash_table_iter_next(&it, &k, &v)) m.bad[(char*)k] = GPOINTER_TO_INT(v); }
  DumpV d; d.node[0] = &m.vomm;
  g_hash_table_iter_init(&it, state->exes);
  while (g_hash_table_iter_next(&it, &k, &v)) {
    auto* e = (preload_exe_t*)v; auto& x = m.exes[e->path]; x.time = e->time; x.update_time = e->update_time;
    for (guint i = 0; i < e->exemaps->len; i++) { auto* q = ((preload_exemap_t*)g_ptr_array_index(e->exemaps, i))->map; x.maps.push_back({q->path, q->offset, q->length}); }
    std::sort(x.maps.begin(), x.maps.end());
    d.byseq[e->seq] = e->path;
    for (guint i = 0; i < e->markovs->len; i++) {
      auto* q = (preload_markov_t*)g_ptr_array_index(e->markovs, i); if (q->a != e) continue;
      MMk y; y.time = q->time; y.state = q->state; memcpy(y.ttl, q->time_to_leave, sizeof y.ttl); memcpy(y.w, q->weight, sizeof y.w);
      std::string A = q->a->path, B = q->b->path;
      if (m.mk.count({std::min(A, B), std::max(A, B)})) m.bad["<duplicate pair record " + A + " " + B + ">"] = 1;
      m.put_mk(A, B, y);
    }
  }
  vomm_export_state(dv, &d);
  if (d.bad) m.bad["<inconsistent sequence export>"] = 1;
  return m;
}
