// C16: saving forgets exactly the programs whose files are gone.
#include "sim.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = 6; p.max_lives = 3; p.min_cycles = 3; p.max_cycles = 20; p.max_events = 4; p.vomm_exact = !s.chance(1, 3); p.algo = s.chance(1, 2) ? 0 : 2;
  p.filters = s.chance(1, 5); p.small_sizes = s.chance(1, 4); p.deletes = p.deny = true; p.odd_paths = s.chance(1, 4); p.reload = s.chance(1, 6); p.predict = s.chance(1, 3); p.saves = true; p.save_weight = 3;
  p.check_running = true;
  SimStats st = run_history(s, c, p);
  if (st.removed) c.label("removed"); if (st.restarts) c.label("restart"); c.count(0, st.cycles); c.count(1, st.removed); c.count(2, st.saves); c.count(3, st.probes);
  if (st.saves >= 1 && st.exes + st.removed >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C16", "a save requested with two or more programs known", {{"history", history, 2600, 60000}}, {"rounds", "programs forgotten", "saves", "model comparisons"}};
