// C07: pair statistics equal those of the observed history.
#include "sim.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 5; p.max_lives = 3; p.min_cycles = 3; p.max_cycles = 24; p.max_events = 3; p.vomm_exact = false; p.algo = 1;
  p.filters = s.chance(1, 5); p.deletes = s.chance(1, 4); p.battery = s.chance(1, 4); p.reload = s.chance(1, 4); p.switches = s.chance(1, 6);
  p.cmp.vomm = false; p.cmp.maps = p.cmp.bad = p.cmp.exe_maps = false; p.cmp.exe_time = false;
  SimStats st = run_history(s, c, p);
  c.label(fmt("pairs=%d", std::min(st.pairs, 6))); c.label(st.transitions > 20 ? "transitions>20" : st.transitions > 5 ? "transitions>5" : "transitions<=5"); if (st.restarts) c.label("restart"); if (st.removed) c.label("removed");
  c.count(0, st.cycles); c.count(1, (uint32_t)st.transitions); c.count(2, st.probes);
  if (st.pairs && st.transitions >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C07", "at least one pair of programs and two joint state transitions", {{"history", history, 3000, 60000}}, {"cycles", "transitions", "probes"}};
