// C05: the model contains exactly the eligible programs and their file sections.
#include "gen.h"
static void run(Src& s, Ctx& c, bool big) {
  Profile p; p.min_apps = big ? 12 : 1; p.max_apps = big ? 40 : 6; p.max_lives = 3; p.min_cycles = 3; p.max_cycles = big ? 8 : 18; p.max_events = big ? 12 : 3; p.vomm_exact = false; p.algo = 2;
  p.small_sizes = !s.chance(1, 3); p.deletes = s.chance(1, 4); p.battery = s.chance(1, 8); p.reload = s.chance(1, 3); p.switches = s.chance(1, 8); p.odd_paths = s.chance(1, 2); p.dup_maps = p.junk_maps = s.chance(1, 2);
  p.cmp.time = p.cmp.exe_time = p.cmp.mk = p.cmp.vomm = false; p.check_running = true;
  SimStats st = run_history(s, c, p);
  c.label(fmt("programs=%d", std::min(st.exes, 12) / 3 * 3)); if (st.bads) c.label("uninteresting"); if (st.removed) c.label("removed"); if (st.restarts) c.label("restart"); c.count(0, st.cycles); c.count(1, st.probes); c.count(2, st.exes);
  if (st.exes >= 1 && st.events >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
static void history(Src& s, Ctx& c) { run(s, c, false); }
static void many(Src& s, Ctx& c) { run(s, c, true); }
// processes that end (their maps vanish or read as empty) while they are being examined
struct Dying { FProc p; int at, how, opens; bool gone; };   // how: 1 vanishes, 2 reads as empty
static std::vector<Dying> dying;
static void dying_open(const char* path) {
  int pid; char rest[16]; if (sscanf(path, "/proc/%d/%15s", &pid, rest) != 2 || strcmp(rest, "maps")) return;
  for (auto& d : dying) if (d.p.pid == pid && ++d.opens == d.at) { d.gone = true; if (d.how == 1) proc_del(pid); else { FProc z = d.p; z.maps.clear(); z.maps_text_set = true; z.maps_text = ""; proc_put(z); } }
}
static void dying_(Src& s, Ctx& c) {
  sut_init(); Conf k; k.minsize = 1000; k.algo = s.chance(1, 2) ? "VOMM" : "Markov"; conf_to_sut(k); preload_state_load(""); preload_state_prepare_algorithm(); dying.clear(); W.on_open = dying_open;
  int n = 1 + s.small(5), libs = 1 + s.small(5), killed = 0; std::vector<std::vector<FMap>> maps; std::vector<std::string> path; auto mk = [&](int i) { FProc f; f.pid = 5000001 + i; f.exe = path[i]; f.maps = maps[i]; return f; };
  for (int i = 0; i < n; i++) { path.push_back(ROOT "/usr/bin/" + odd_name(s, i, s.chance(1, 4))); std::vector<FMap> v; v.push_back({path[i], 0, 8192, ""}); int m = s.small(4); for (int j = 0; j < m; j++) v.push_back({ROOT "/usr/lib/" + fmt("l%d", (int)s.draw(libs)), 4096 * s.draw(3), 4096 * (1 + s.draw(3)), ""}); maps.push_back(v); mkfile(path[i]); }
  std::set<int> up; std::map<int, int> may; int rounds = 2 + s.small(4); std::set<int> known;
  for (int r = 0; r < rounds; r++) {
    bool last = r == rounds - 1; dying.clear(); W.on_open = nullptr;
    for (int i = 0; i < n; i++) if (last || s.chance(2, 3)) { proc_put(mk(i)); up.insert(i); } else if (up.count(i) && s.chance(1, 3)) { proc_del(5000001 + i); up.erase(i); }
    preload_spy_scan(nullptr); state->time += 10; std::string t = fmt("round %d:", r);
    for (int i : up) if (!known.count(i) && !last && s.chance(2, 3)) { dying.push_back({mk(i), 1 + (int)s.draw(3), 1 + (int)s.draw(2), 0, false}); t += fmt(" p%d %s at read %d", i, dying.back().how == 1 ? "ends" : "becomes a zombie", dying.back().at); }
    W.on_open = dying_open; preload_spy_update_model(nullptr); W.on_open = nullptr; state->time += 10; c.note(t);
    Model got = dump_sut(); std::set<MMap> want; std::string at = t + "; ";
    for (int i = 0; i < n; i++) {
      std::vector<MMap> ms; for (auto& m : maps[i]) ms.push_back({m.path, m.off, m.len}); std::sort(ms.begin(), ms.end()); bool died = false; for (auto& d : dying) if (d.p.exe == path[i] && d.gone) died = true; if (died) killed++;
      auto it = got.exes.find(path[i]); bool should = known.count(i) || (up.count(i) && !died);
      if (it == got.exes.end()) { if (should) c.fail("not-tracked", at + printable(path[i]) + " is not tracked though it could be examined"); continue; }
      if (!should && !died) c.fail("tracked", at + printable(path[i]) + " is tracked though it did not run");
      if (it->second.maps != ms) { std::vector<MMap> a = it->second.maps; std::sort(a.begin(), a.end()); if (a != ms) c.fail("sections", at + fmt("%s is tracked with %zu sections, it maps %zu", printable(path[i]).c_str(), a.size(), ms.size())); }
      known.insert(i); for (auto& m : ms) want.insert(m);
    }
    for (auto& m : got.maps) if (!want.count(m)) c.fail("stray-section", at + printable(m.path) + " is known, but belongs to no tracked program"); for (auto& m : want) if (!got.maps.count(m)) c.fail("lost-section", at + printable(m.path) + " is not known");
    for (auto& d : dying) if (d.gone) { for (int i = 0; i < n; i++) if (path[i] == d.p.exe) { up.erase(i); proc_del(d.p.pid); } if (g_hash_table_lookup(state->bad_exes, d.p.exe.c_str())) c.fail("uninteresting", at + printable(d.p.exe) + " is held uninteresting though it could not be examined"); }
    for (auto& v : got.vomm.ch) if (!got.exes.count(v.first)) c.fail("launch", at + "a launch of an untracked program is recorded");
    preload_state_save(STATEF); Model disk; std::string err; std::string txt = slurp(STATEF); if (!txt.empty() && !parse_state(txt, disk, err)) c.fail("file", err);
  }
  if ((int)known.size() != n) c.fail("not-tracked", "a program is not tracked at the end"); c.count(0, rounds); c.count(2, n); c.label(killed ? "ended while examined" : "none ended"); if (killed) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 700)); }
  preload_state_free(); if (state->maps && g_hash_table_size(state->maps)) c.fail("release", "sections left after releasing");
}
CheckDef g_check = {"C05", "history, many: at least one program tracked at the end and three events; dying: a process ended while it was examined", {{"history", history, 2200, 60000}, {"many", many, 300, 8000}, {"dying", dying_, 2000, 60000}}, {"rounds", "model comparisons", "programs tracked"}};
