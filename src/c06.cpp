// C06: model time and running-time accounting follow real elapsed time.
#include "sim.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 1; p.max_apps = 4; p.max_lives = 3; p.min_cycles = 3; p.max_cycles = s.chance(1, 20) ? 150 : 24; p.max_events = 3; p.vomm_exact = false; p.algo = 2;
  p.filters = s.chance(1, 5); p.deletes = s.chance(1, 8); p.battery = s.chance(1, 2); p.reload = s.chance(1, 2); p.switches = s.chance(1, 4);
  p.cmp.exe_maps = p.cmp.maps = p.cmp.bad = p.cmp.vomm = p.cmp.mk_stats = false;
  SimStats st = run_history(s, c, p);
  if (st.restarts) c.label("restart"); if (p.battery) c.label("battery"); if (p.reload) c.label("reload"); c.label(fmt("pairs=%d", std::min(st.pairs, 6))); c.count(0, st.cycles); c.count(1, st.probes);
  if (st.exes >= 1 && st.cycles >= 4 && st.events >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C06", "at least one program tracked, four rounds and two events", {{"history", history, 2600, 60000}}, {"rounds", "model comparisons"}};
