// C03: no state file content can crash or corrupt the daemon.
#include "gen.h"
#include <csignal>
#include <sys/syscall.h>
typedef std::vector<std::string> Lines;
static Lines lines_of(const std::string& t) { Lines v; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) { v.push_back(t.substr(p)); break; } v.push_back(t.substr(p, e - p)); p = e + 1; } return v; }
static std::string join(const Lines& v) { std::string o; for (auto& x : v) o += x + "\n"; return o; }
static Lines fields(const std::string& l) { Lines v; size_t p = 0; while (true) { size_t e = l.find('\t', p); if (e == std::string::npos) { v.push_back(l.substr(p)); break; } v.push_back(l.substr(p, e - p)); p = e + 1; } return v; }
static std::string unfields(const Lines& f) { std::string o; for (size_t i = 0; i < f.size(); i++) o += (i ? "\t" : "") + f[i]; return o; }
static int pick_line(Src& s, const Lines& v, const char* tag) { std::vector<int> c; for (size_t i = 0; i < v.size(); i++) if (!tag || v[i].compare(0, strlen(tag) + 1, std::string(tag) + "\t") == 0) c.push_back((int)i); return c.empty() ? -1 : c[s.draw(c.size())]; }
static const char* NUMS[] = {"-1", "0", "1", "2", "2147483647", "2147483648", "-2147483648", "4294967297", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "99999999999999999999999", "nan", "inf", "-inf", "1e309", "-1e300", "1e-320", "0x10", "", " ", "x", "+5", "1.5", "007", "-0"};

struct Out { bool refused = false, ignored = false, loaded = false; };
// Starts the daemon on the file; lets it work when it accepted it. Returns what happened.
static Out drive(Src& s, Ctx& c, const std::string& text, const std::vector<std::string>& progs, const std::vector<MMap>& maps, const Model* want, bool must_load = false) {
  Conf k; k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; k.usecorr = !s.chance(1, 4); k.cycle = s.chance(1, 3) ? 2 : 20; k.sort = (int)s.draw(4); k.procs = s.chance(1, 4) ? 2 : 0; k.memtotal = k.memfree = 100; k.minsize = 1000;
  Conf k2 = k; k2.algo = k.vomm() ? "Markov" : "VOMM"; k2.cycle = 10; std::string t2 = k2.text();
  write_file(realpath_of(CONFF), k.text()); write_file(realpath_of(STATEF), text); meminfo_put(MemInfo());
  LifeOpts lo; lo.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"}; if (s.chance(1, 3)) { lo.args.push_back("-V"); lo.args.push_back("9"); }
  std::vector<FProc> ps; for (size_t i = 0; i < progs.size() && i < 6; i++) { FProc p; p.pid = 6000000 + (int)i; p.exe = progs[i]; p.maps = {{progs[i], 0, 3000000, ""}}; if (!maps.empty()) { auto& q = maps[s.draw(maps.size())]; if (q.path.find('\n') == std::string::npos) p.maps.push_back({q.path, q.off, q.len, ""}); } ps.push_back(p); if (s.chance(1, 2)) mkfile(progs[i], 4096); if (s.chance(1, 4) && !want) proc_put(p); }
  { FProc p; p.pid = 6100000; p.exe = ROOT "/usr/bin/stranger"; p.maps = {{p.exe, 0, 4000000, ""}}; mkfile(p.exe); ps.push_back(p); }
  std::string sent = text;
  Model w; if (want) w = *want; bool cmp = want != nullptr;
  lo.acts.push_back({50000, [sent, w, cmp] {
    if (slurp(STATEF) != sent) child_fail("file-modified", "the state file was modified while it was read");
    write_file(g_scratch + "/stderr.accepted", fmt("%u %u", g_hash_table_size(state->exes), g_hash_table_size(state->maps)));
    if (cmp) { Model g = dump_sut(), x = w; g.bad.clear(); x.bad.clear(); CmpOpts o; o.time = o.exe_time = o.mk_time = true; o.tol = 1e-9; for (auto& q : x.mk) q.second.state = -1; o.vomm = !x.vomm.ch.empty() ; o.maps = true;
      // a new program may have been found running at start-up only in the next half cycle: the loaded model is still alone
      g.time = x.time; for (auto& e : x.exes) if (g.exes.count(e.first)) { }
      std::string d = diff_models(x, g, o); if (!d.empty()) child_fail("loaded-model", "accepted file: expected vs loaded: " + d); }
  }});
  int64_t t = 500000; int n = 3 + s.small(6);
  for (int i = 0; i < n; i++) {
    t += 1000000 + (int64_t)s.draw(30) * 1000000;
    switch (s.weighted({4, 3, 2, 1, 1})) {
      case 0: { FProc p = ps[s.draw(ps.size())]; lo.acts.push_back({t, [p] { proc_put(p); }}); break; }
      case 1: { FProc p = ps[s.draw(ps.size())]; lo.acts.push_back({t, [p] { proc_del(p.pid); }}); break; }
      case 2: lo.acts.push_back({t, [] { raise(SIGUSR2); }}); break;
      case 3: lo.acts.push_back({t, [] { raise(SIGUSR1); }}); break;
      default: lo.acts.push_back({t, [t2] { write_file(realpath_of(CONFF), t2); raise(SIGHUP); }});
    }
  }
  lo.end_us = t + 21500000;
  std::string af = g_scratch + "/stderr.accepted"; rm_rf(af);
  // before the first scan changes anything, nothing but the loaded programs is known: keep strangers away at start
  Life l = run_life(lo); Out o; bool got; std::string a = read_file(af, &got); rm_rf(af);
  if (l.sig || l.exit_code == 99 || l.log.find("ERROR: AddressSanitizer") != std::string::npos) c.fail("crash", "daemon crashed: " + l.why + "\n" + (l.log.size() > 3500 ? l.log.substr(l.log.find("ERROR: Addr") == std::string::npos ? l.log.size() - 3500 : l.log.find("ERROR: Addr"), 3500) : l.log));
  if (!got) {
    o.refused = true; if (l.exit_code != 1) c.fail("exit-status", "start-up was refused with " + l.why + "\n" + l.log.substr(0, 1000));
    if (l.log.find("failed loading state") == std::string::npos && l.log.find("ERROR") == std::string::npos) c.fail("no-message", "start-up was refused without an error message: " + l.log.substr(0, 1000));
    if (slurp(STATEF) != text) c.fail("file-modified", "a refused state file was modified");
    return o;
  }
  int mj, tv = 0; bool edge = sscanf(text.c_str(), "PRELOAD %d.%*[^\t]\t%d", &mj, &tv) == 2 && tv > 2000000000;   // the clock would wrap around: not claimed
  require_clean(c, l, edge); o.loaded = true; if (l.log.find("ignoring it") != std::string::npos) { o.ignored = true; o.loaded = false; if (a != "0 0") c.fail("ignored-applied", "an ignored file left " + a + " programs and sections"); }
  // what it saved can be loaded again
  if (exists(STATEF) && slurp(STATEF) != text && !edge) {
    LifeOpts l2; l2.args = {"-c", CONFF, "-s", STATEF, "-l", "", "-f", "-n", "0"}; proc_clear(); meminfo_put(MemInfo()); l2.end_us = 5500000; Life z = run_life(l2);
    if (z.exit_code == 1 && z.log.find("failed loading state") != std::string::npos) c.fail("own-file-refused", "the daemon refuses the file it saved after accepting this one: " + z.log.substr(0, 600) + "\n" + slurp(STATEF).substr(0, 3000));
    require_clean(c, z); if (z.log.find("ignoring it") != std::string::npos) c.fail("own-file-refused", "the daemon ignores the file it saved: " + z.log.substr(0, 600));
  }
  return o;
}
static void base(Src& s, Model& m, std::vector<std::string>& ps, std::vector<MMap>& ms) {
  GenOpts o; o.max_exes = s.chance(1, 5) ? 12 : 5; o.max_maps = 8; o.consistent = !s.chance(1, 3); o.odd = s.chance(1, 3);
  m = gen_model(s, o); for (auto& e : m.exes) ps.push_back(e.first); for (auto& q : m.maps) ms.push_back(q);
}

// any number of mutations; whatever the outcome, it is one of the three
static void mutated(Src& s, Ctx& c) {
  Model m; std::vector<std::string> ps; std::vector<MMap> ms; base(s, m, ps, ms); std::string text = emit_state(m, &s); Lines v = lines_of(text);
  int nm = s.chance(1, 3) ? 1 : 1 + s.small(12); std::string raw; bool israw = false;
  static const char* TAGS[] = {"MAP", "EXE", "EXEMAP", "MARKOV", "VOMMNODE", "PRELOAD", "BADEXE"};
  for (int i = 0; i < nm; i++) {
    int li = v.empty() ? -1 : pick_line(s, v, s.chance(1, 2) ? nullptr : TAGS[s.draw(5)]); if (li < 0) { if (v.empty()) break; li = (int)s.draw(v.size()); }
    if (li == 0 && !s.chance(1, 4)) li = (int)s.draw(v.size());
    int how = s.weighted({8, 5, 2, 2, 2, 2, 2, 3, 3, 1, 1, 2, 3, 1});
    switch (how) {
      case 0: case 1: {   // another number in a field, often one that is in use elsewhere
        Lines f = fields(v[li]); if (f.size() < 2) break; size_t k = 1 + s.draw(f.size() - 1); std::string nv = how == 0 ? NUMS[s.draw(sizeof NUMS / sizeof *NUMS)] : fmt("%d", (int)s.draw(14) - 1);
        c.note(fmt("line %d field %zu: %s -> %s", li + 1, k, printable(f[k], 60).c_str(), nv.c_str())); f[k] = nv; v[li] = unfields(f); break; }
      case 2: c.note(fmt("line %d deleted", li + 1)); v.erase(v.begin() + li); break;
      case 3: { size_t to = s.draw(v.size() + 1); c.note(fmt("line %d copied to %zu", li + 1, to + 1)); std::string x = v[li]; v.insert(v.begin() + to, x); break; }
      case 4: { size_t to = s.draw(v.size()); c.note(fmt("lines %d and %zu exchanged", li + 1, to + 1)); std::swap(v[li], v[to]); break; }
      case 5: { size_t k = s.draw(v[li].size() + 1); c.note(fmt("line %d cut to %zu bytes", li + 1, k)); v[li].resize(k); break; }
      case 6: { int b = (int)s.draw(256); size_t k = s.draw(v[li].size() + 1); c.note(fmt("line %d byte \\x%02x inserted at %zu", li + 1, b, k)); v[li].insert(k, 1, (char)b); break; }
      case 7: { if (v[li].empty()) break; size_t k = s.draw(v[li].size()); int b = (int)s.draw(256); c.note(fmt("line %d byte %zu set to \\x%02x", li + 1, k, b)); v[li][k] = (char)b; break; }
      case 8: { Lines f = fields(v[li]); f[0] = TAGS[s.draw(7)]; c.note(fmt("line %d tag -> %s", li + 1, f[0].c_str())); v[li] = unfields(f); break; }
      case 9: { size_t k = std::vector<size_t>{100, 511, 512, 513, 1500, 1599, 1600, 1601, 5000, 70000, 1000000}[s.draw(11)]; Lines f = fields(v[li]); f.back() = (s.chance(1, 2) ? "file:///" : "") + std::string(k, s.chance(1, 2) ? 'a' : '%'); c.note(fmt("line %d last field of %zu bytes", li + 1, k)); v[li] = unfields(f); break; }
      case 10: { static const char* U[] = {"file://", "file:///", "file://host/x", "file://localhost/usr/bin/x", "file:///a%00b", "file:///a%zz", "file:///%", "http://x/y", "/plain/path", "file:///x y", "file:x", "FILE:///x", "file:////x", "file:///..//x", "file:///%2f"}; Lines f = fields(v[li]); f.back() = U[s.draw(15)]; c.note(fmt("line %d uri -> %s", li + 1, f.back().c_str())); v[li] = unfields(f); break; }
      case 11: { Lines f = fields(v[li]); if (f.size() < 2) break; size_t k = s.draw(f.size()); if (s.chance(1, 2)) f.erase(f.begin() + k); else f.insert(f.begin() + k, NUMS[s.draw(10)]); c.note(fmt("line %d: a field removed or added at %zu", li + 1, k)); v[li] = unfields(f); break; }
      case 12: {   // extra sequence nodes around what exists, with any structure
        int k = 1 + s.small(8); for (int q = 0; q < k; q++) { std::string x = fmt("VOMMNODE\t%s\t%d\t%s\t%d", s.chance(1, 5) ? NUMS[s.draw(12)] : fmt("%d", (int)s.draw(30)).c_str(), 1 + (int)s.draw(ps.size() + 2), s.chance(1, 3) ? NUMS[s.draw(8)] : "3", (int)s.draw(30)); v.insert(v.begin() + (s.chance(1, 2) ? v.size() : s.draw(v.size() + 1)), x); c.note("inserted " + x); } break; }
      default: { int k = (int)s.draw(4); std::string x = k == 0 ? "" : k == 1 ? "#" : k == 2 ? "\t\t" : "GARBAGE\t1"; v.insert(v.begin() + s.draw(v.size() + 1), x); c.note("inserted line '" + x + "'"); }
    }
  }
  text = join(v);
  switch (s.weighted({12, 1, 1, 1, 1})) {
    case 1: text.resize(s.draw(text.size() + 1)); c.note(fmt("file cut to %zu bytes", text.size())); break;
    case 2: { std::string t; for (char ch : text) { if (ch == '\n') t += '\r'; t += ch; } text = t; c.note("CRLF"); break; }
    case 3: { int k = 1 + (int)s.draw(6); for (int q = 0; q < k && !text.empty(); q++) { size_t p = s.draw(text.size()); text[p] = (char)s.draw(256); } c.note("random bytes"); break; }
    case 4: { size_t p = s.draw(text.size() + 1), n = s.draw(text.size() - p + 1); std::string blk = text.substr(p, n); text.insert(s.draw(text.size() + 1), blk); c.note(fmt("a block of %zu bytes repeated", n)); break; }
    default: break;
  }
  (void)raw; (void)israw; c.note(printable(text, 6000));
  Out o = drive(s, c, text, ps, ms, nullptr);
  c.label(o.refused ? "refused" : o.ignored ? "ignored" : "loaded"); c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1500));
}
// unstructured content
static void bytes(Src& s, Ctx& c) {
  std::string t; size_t n = s.chance(1, 10) ? s.draw(20000) : s.draw(200); int style = (int)s.draw(4);
  if (style) t = std::string("PRELOAD\t0.6.4\t") + fmt("%d\n", (int)s.draw(1000));
  static const char* W_[] = {"MAP", "EXE", "EXEMAP", "MARKOV", "VOMMNODE", "\t", "\t", "\t", "\n", "\n", "1", "2", "0", "-1", "file:///a", "%d", "%s", "0.5", "PRELOAD", "#", " "};
  while (t.size() < n) { if (style < 2) t += (char)s.draw(256); else t += W_[s.draw(21)]; }
  c.note(printable(t, 4000)); Out o = drive(s, c, t, {ROOT "/a"}, {}, nullptr); c.label(o.refused ? "refused" : o.ignored ? "ignored" : "loaded");
  if (t.size() >= 4) c.nontrivial(); c.sample(printable(t, 300));
}
// one defect whose treatment is specified
static void catalog(Src& s, Ctx& c) {
  Model m; std::vector<std::string> ps; std::vector<MMap> ms; base(s, m, ps, ms); std::string text = emit_state(m, &s); Lines v = lines_of(text);
  static const char* TAGS[] = {"MAP", "EXE", "EXEMAP", "MARKOV", "VOMMNODE"};
  enum { REFUSE, IGNORE, LOAD } exp = REFUSE; Model want = m; bool cmp = false; int how = (int)s.draw(18);
  auto need = [&](int l) { if (l < 0) throw CaseSkip{"no such line in this model"}; return l; };
  // without the lines that refer to an item, so that nothing else is wrong
  auto unref = [&](const std::string& i, bool exe) { Lines w; for (auto& x : v) { Lines f = fields(x); if (exe ? (f[0] == "EXEMAP" && f[1] == i) || (f[0] == "MARKOV" && (f[1] == i || f[2] == i)) || (f[0] == "VOMMNODE" && f[2] == i) : f[0] == "EXEMAP" && f[2] == i) continue; w.push_back(x); } v = w; };
  switch (how) {
    case 0: { int l = need(pick_line(s, v, "MAP")), k = need(pick_line(s, v, "MAP")); if (l == k) throw CaseSkip{"one line"}; Lines a = fields(v[l]), b = fields(v[k]); std::string old = a[1]; a[1] = b[1]; v[l] = unfields(a); if (s.chance(1, 2)) unref(old, false); c.note("two sections with one index"); break; }
    case 1: { int l = need(pick_line(s, v, "MAP")); Lines a = fields(v[l]); a[1] = "777"; v.insert(v.begin() + l + 1, unfields(a)); c.note("a section twice"); break; }
    case 2: { int l = need(pick_line(s, v, "EXE")), k = need(pick_line(s, v, "EXE")); if (l == k) throw CaseSkip{"one line"}; Lines a = fields(v[l]), b = fields(v[k]); std::string old = a[1]; a[1] = b[1]; v[l] = unfields(a); if (s.chance(1, 2)) unref(old, true); c.note("two programs with one index"); break; }
    case 3: { int l = need(pick_line(s, v, "EXE")); Lines a = fields(v[l]); a[1] = "777"; v.insert(v.begin() + l + 1, unfields(a)); c.note("a program twice"); break; }
    case 4: { int l = need(pick_line(s, v, "EXEMAP")); Lines a = fields(v[l]); a[1 + s.draw(2)] = std::vector<std::string>{"0", "-1", "99999", "4294967297"}[s.draw(4)]; v[l] = unfields(a); c.note("link to an unknown item: " + v[l]); break; }
    case 5: { int l = need(pick_line(s, v, "MARKOV")); Lines a = fields(v[l]); a[1 + s.draw(2)] = std::vector<std::string>{"0", "-1", "99999", "4294967297"}[s.draw(4)]; v[l] = unfields(a); c.note("pair with an unknown program: " + v[l]); break; }
    case 6: { int l = need(pick_line(s, v, "MARKOV")); Lines a = fields(v[l]); a[1] = a[2]; v[l] = unfields(a); c.note("pair of a program with itself"); break; }
    case 7: { int l = need(pick_line(s, v, "MARKOV")); Lines a = fields(v[l]); if (s.chance(1, 2)) std::swap(a[1], a[2]); v.insert(v.begin() + l + 1 + s.draw(v.size() - l), unfields(a)); c.note("a pair twice"); break; }
    case 8: { const char* tg = TAGS[s.draw(5)]; int l = need(pick_line(s, v, tg)); Lines a = fields(v[l]); size_t keep = 1 + s.draw(a.size() - 1); a.resize(keep); v[l] = unfields(a); c.note("fields missing: " + printable(v[l])); break; }
    case 9: { const char* tg = TAGS[s.draw(4)]; int l = need(pick_line(s, v, tg)); Lines a = fields(v[l]); size_t hi = tg == TAGS[0] ? 5 : tg == TAGS[1] ? 4 : tg == TAGS[2] ? 3 : 23; size_t k = 1 + s.draw(hi); a[k] = "x"; v[l] = unfields(a); c.note("not a number: " + printable(v[l])); break; }
    case 10: { int l = need(pick_line(s, v, s.chance(1, 2) ? "MAP" : "EXE")); Lines a = fields(v[l]); a.back() = std::vector<std::string>{"/plain/path", "http://x/y", "file:///a%00b", "file:///a%zz", "nothing"}[s.draw(5)]; v[l] = unfields(a); c.note("invalid name: " + v[l]); break; }
    case 11: { std::string x = std::vector<std::string>{"GARBAGE\t1\t2", "MAPS\t1", "EXEMAPS\t1\t1\t1", "map\t1"}[s.draw(4)]; v.insert(v.begin() + 1 + s.draw(v.size()), x); c.note("unknown tag: " + x); break; }
    case 12: { exp = IGNORE; v[0] = std::vector<std::string>{"PRELOAX\t0.6.4\t5", "EXE\t1", "garbage", "preload\t0.6.4\t5", "\x7f" "ELF", "# PRELOAD\t0.6.4\t5"}[s.draw(6)]; c.note("header: " + printable(v[0])); break; }
    case 13: { exp = IGNORE; v[0] = std::vector<std::string>{"PRELOAD\t1.0\t5", "PRELOAD\t2.6.4\t5", "PRELOAD\t99.1.1\t5", "PRELOAD\t-1.1\t5"}[s.draw(4)]; c.note("other major version: " + v[0]); break; }
    case 14: { v[0] = std::vector<std::string>{"PRELOAD", "PRELOAD\t0.6.4", "PRELOAD\tx.6.4\t5", "PRELOAD\t0.6.4\tx"}[s.draw(4)]; c.note("header without all its fields: " + v[0]); break; }
    case 15: { int l = 1 + (int)s.draw(v.size()); v.insert(v.begin() + l, v[0]); c.note("a second header"); break; }
    case 16: {   // comments
      exp = LOAD; cmp = true; int k = 1 + s.small(4);
      for (int i = 0; i < k; i++) { std::string x = std::vector<std::string>{"#", "# a comment", "#MAP\t1", "#\tEXE\t1\t2", "#EXE", "##", "# " + std::string(3000, 'x')}[s.draw(7)]; v.insert(v.begin() + 1 + s.draw(v.size()), x); c.note("comment " + printable(x, 40)); }
      break; }
    default: {   // sequence nodes that are skipped
      exp = LOAD; cmp = true; int k = 1 + s.small(4);
      for (int i = 0; i < k; i++) {
        std::string x; int z = (int)s.draw(4), exe = ps.empty() ? 1 : 1;
        if (ps.empty()) z = 0;
        if (z == 0) x = fmt("VOMMNODE\t%d\t%s\t3\t0", 1000 + i, std::vector<const char*>{"0", "-1", "99999", "4294967297"}[s.draw(4)]);                       // unknown program
        if (z == 1) x = fmt("VOMMNODE\t%d\t%d\t3\t%d", 1000 + i, exe, 50000 + (int)s.draw(9));             // orphan
        if (z == 2) { int l = pick_line(s, v, "VOMMNODE"); if (l < 0) continue; Lines a = fields(v[l]); a[3] = "5"; x = unfields(a); }   // repeated index
        if (z == 3) { int l = pick_line(s, v, "VOMMNODE"); if (l < 0) continue; Lines a = fields(v[l]); a[1] = fmt("%d", 2000 + i); a[3] = "7"; x = unfields(a); }   // repeated node
        size_t at = z >= 2 ? v.size() : (m.vomm.ch.empty() ? v.size() : v.size()); v.insert(v.begin() + at, x); c.note("sequence node to be skipped: " + x);
      }
    }
  }
  c.note(printable(join(v), 4000)); text = join(v);
  Out o = drive(s, c, text, ps, ms, cmp ? &want : nullptr);
  std::string got = o.refused ? "refused" : o.ignored ? "ignored" : "loaded", w = exp == REFUSE ? "refused" : exp == IGNORE ? "ignored" : "loaded";
  if (got != w) c.fail("outcome", fmt("defect %d: the file was %s, not %s\n", how, got.c_str(), w.c_str()) + std::string(g_slot->desc).substr(0, 3000));
  c.label(fmt("defect %d", how)); c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 900));
}
// well-formed files with any figures
static void figures(Src& s, Ctx& c) {
  Model m; std::vector<std::string> ps; std::vector<MMap> ms; base(s, m, ps, ms); Lines v = lines_of(emit_state(m, &s)); int nm = 1 + s.small(20);
  static const char* ints[] = {"-1", "0", "1", "2", "2147483647", "-2147483648", "2147483648", "4294967297", "9223372036854775807", "-9223372036854775808", "1000000", "18446744073709551615"};
  static const char* dbls[] = {"nan", "inf", "-inf", "1e309", "-1e300", "1e-320", "0", "-0", "1", "1.0000001", "-5", "1e18", "0.5"};
  for (int i = 0; i < nm; i++) {
    const char* tg = std::vector<const char*>{"MARKOV", "MARKOV", "EXE", "MAP", "VOMMNODE", "PRELOAD", "EXEMAP"}[s.draw(7)]; int l = pick_line(s, v, tg); if (l < 0) continue;
    Lines f = fields(v[l]); size_t k = 0; const char* x = ints[s.draw(12)];
    if (!strcmp(tg, "MARKOV")) { k = 3 + s.draw(21); if (k >= 4 && k < 8) x = dbls[s.draw(13)]; }
    else if (!strcmp(tg, "EXE")) k = 2 + s.draw(3); else if (!strcmp(tg, "MAP")) k = 2 + s.draw(4); else if (!strcmp(tg, "VOMMNODE")) k = s.chance(1, 3) ? 1 + 3 * s.draw(2) : 3;
    else if (!strcmp(tg, "PRELOAD")) { k = 2; if (strlen(x) > 10 || !strcmp(x, "2147483648") || !strcmp(x, "4294967297")) x = "77"; } else { k = 3; x = dbls[s.draw(13)]; }
    if (k >= f.size()) continue; c.note(fmt("%s field %zu: %s -> %s", tg, k, f[k].c_str(), x)); f[k] = x; v[l] = unfields(f);
  }
  if (!ps.empty() && s.chance(1, 25)) { int n = s.chance(1, 4) ? 60000 : 3 + (int)s.draw(5000); int e = 1; c.note(fmt("a chain of %d sequence nodes", n)); for (int i = 0; i < n; i++) v.push_back(fmt("VOMMNODE\t%d\t%d\t1\t%d", 10000 + i, e, i ? 9999 + i : 0)); c.label("chain"); }
  std::string text = join(v); c.note(printable(text, 3000)); Out o = drive(s, c, text, ps, ms, nullptr); c.label(o.refused ? "refused" : "loaded"); if (o.loaded) c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1200));
}
CheckDef g_check = {"C03", "figures: accepted files; mutated: all; bytes: four bytes or more; catalog: all", {{"mutated", mutated, 1600, 60000}, {"figures", figures, 1000, 40000}, {"bytes", bytes, 300, 8000}, {"catalog", catalog, 900, 20000}}, {}};
