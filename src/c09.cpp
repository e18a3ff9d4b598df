// C09: sequence learning records exactly the observed launch sequence.
#include "sim.h"
static void run(Src& s, Ctx& c, bool exact) {
  Profile p; p.min_apps = 1; p.max_apps = exact ? 6 : 8; p.max_lives = 4; p.min_cycles = 3; p.max_cycles = s.chance(1, 15) ? 120 : 28; p.max_events = exact ? 3 : 6; p.vomm_exact = exact; p.algo = s.chance(1, 4) ? 3 : 0;
  p.filters = s.chance(1, 5); p.deletes = exact && s.chance(1, 4); p.battery = s.chance(1, 8); p.reload = p.algo == 3 || s.chance(1, 6); p.switches = s.chance(1, 8); p.odd_paths = s.chance(1, 4); p.predict = s.chance(1, 4); p.dumps = s.chance(1, 6);
  p.cmp.maps = p.cmp.exe_maps = p.cmp.bad = p.cmp.mk = p.cmp.exe_time = false; p.check_sums = true;
  SimStats st = run_history(s, c, p);
  if (st.restarts) c.label("restart"); if (st.removed) c.label("removed"); if (st.ambiguous) c.label("order open"); c.label(st.launches > 20 ? "launches>20" : st.launches > 5 ? "launches>5" : "launches<=5"); c.count(0, st.cycles); c.count(1, (uint32_t)st.launches); c.count(2, st.probes);
  if (st.launches >= 3) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
static void exact(Src& s, Ctx& c) { run(s, c, true); }
static void crowd(Src& s, Ctx& c) { run(s, c, false); }
CheckDef g_check = {"C09", "three or more launches recorded", {{"exact", exact, 2400, 60000}, {"crowd", crowd, 500, 10000}}, {"rounds", "launches", "model comparisons"}};
