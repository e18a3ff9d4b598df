// C04: the daemon survives every history of events in one piece.
#include "sim.h"
static void history(Src& s, Ctx& c) {
  Profile p; p.min_apps = 2; p.max_apps = s.chance(1, 15) ? 30 : 7; p.max_lives = 4; p.min_cycles = 3; p.max_cycles = s.chance(1, 20) ? 120 : 20; p.max_events = 6; p.vomm_exact = false; p.algo = s.weighted({2, 1, 0, 3});
  p.filters = s.chance(1, 4); p.small_sizes = s.chance(1, 4); p.deletes = !s.chance(1, 5); p.deny = s.chance(1, 3); p.odd_paths = s.chance(1, 3); p.dup_maps = p.junk_maps = s.chance(1, 3);
  p.battery = s.chance(1, 4); p.reload = s.chance(1, 2); p.switches = s.chance(1, 3); p.dumps = s.chance(1, 2); p.autosave = s.chance(1, 3); p.save_weight = 3; p.debug_free = s.chance(1, 2); p.procs = s.chance(1, 4) ? 3 : 0;
  p.probe = s.chance(1, 6); p.check_file = p.check_saves = false; p.cmp = CmpOpts{false, false, true, false, false, false, true, false, false, false, false, 1};
  if (p.autosave) p.cmp.exes = p.cmp.mk = false;
  SimStats st = run_history(s, c, p);
  if (st.removed) c.label("removed"); if (st.restarts) c.label("restart"); if (p.debug_free) c.label("model released at exit"); if (p.procs) c.label("workers"); if (p.autosave) c.label("autosave");
  c.count(0, st.cycles); c.count(1, st.events); c.count(2, st.removed); c.count(3, st.saves);
  if (st.events >= 5 && st.exes + st.removed >= 2) { c.nontrivial(); c.sample(std::string(g_slot->desc).substr(0, 1800)); }
}
CheckDef g_check = {"C04", "five or more events and two or more programs tracked", {{"history", history, 3000, 80000}}, {"rounds", "events", "programs forgotten", "saves"}};
