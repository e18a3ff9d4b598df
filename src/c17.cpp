// C17: scanning, predicting and power saving obey their switches.
#include "sim.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 5; p.max_lives = 3; p.min_cycles = 4; p.max_cycles = 22; p.max_events = 3; p.algo = s.weighted({2, 2, 0, 1}); p.vomm_exact = p.algo != 1; p.check_ra = true; p.check_running = true;
  p.filters = s.chance(1, 6); p.deletes = s.chance(1, 6); p.battery = true; p.switches = s.chance(2, 3); p.reload = s.chance(1, 4); p.switch_weight = 2;
  SimStats st = run_history(s, c, p);
  if (st.restarts) c.label("restart"); if (st.batt) c.label("battery rounds"); if (st.noscan) c.label("rounds without scan"); if (st.nopredict) c.label("rounds without prediction");
  c.count(0, st.cycles); c.count(1, st.batt); c.count(2, st.noscan); c.count(3, st.nopredict); c.count(4, st.predictions);
  if ((st.batt || st.noscan || st.nopredict) && st.exes >= 1) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C17", "a round on battery, without scanning or without predicting, and a program known", {{"history", history, 2600, 60000}}, {"rounds", "rounds on battery", "rounds without scan", "rounds without prediction", "rounds that prefetch"}};
