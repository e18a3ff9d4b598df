// Daemon simulation: real main() under virtual time with a scripted environment, plus the reference model
// of what it should have learned.
#pragma once
#include "engine.h"
#include "world.h"
#include "model.h"

struct Conf {
  int cycle = 20; bool usecorr = true; int minsize = 2000000;
  int memtotal = -10, memfree = 50, memcached = 0, membuffers = 50;
  bool doscan = true, dopredict = true; int autosave = 100000000;
  std::vector<std::string> mapprefix, exeprefix;
  std::string algo = "VOMM"; int procs = 0; int sort = 0;
  std::string text() const;
  std::string text(Src& s) const;         // some other way to write it: keys at their documented defaults left out, order, spacing, comments
  bool vomm() const { return algo.find("VOMM") != std::string::npos; }
};
bool prefix_accepts(const std::string& path, const std::vector<std::string>& list);

// ---- one daemon lifetime ----
struct Act { int64_t t_us; std::function<void()> fn; };
struct Life { int exit_code = -1; int sig = 0; std::string log; std::string why; std::string out; bool detached = false; int d_exit = -1, d_sig = 0, pid = 0; };   // d_*: the process left behind
struct LifeOpts {
  std::vector<std::string> args; std::vector<Act> acts; int64_t end_us = -1;   // SIGTERM raised at end_us
  std::function<void()> at_exit; bool vtime = true;
  std::function<void()> before_main; bool separate_out = false;    // out: standard output, otherwise in log
};
Life run_life(LifeOpts o);
[[noreturn]] void child_fail(const std::string& sig, const std::string& msg);  // report a failure from the daemon process
void require_clean(Ctx& c, const Life& l, bool allow_assert = false);           // exit 0, no sanitizer report, no assertion

// ---- reference model ----
struct RExe { long long time = 0; std::set<MMap> maps; long long ct = 0; bool running = false; };
struct RPair { MMk k; int st = 0; long long ct = 0; };
struct RProc { std::string exe; std::vector<FMap> maps; };
struct Ref {
  long long time = 0, last_acct = 0; bool dirty = false, model_dirty = false;
  std::map<std::string, RExe> exes; std::set<std::string> bad;
  std::map<std::pair<std::string, std::string>, RPair> pairs;
  VNode tree; bool tree_live = false; std::vector<std::string> hist, cur;
  std::map<std::string, std::set<int>> pend_new; std::set<std::string> pend_changed;
  bool vomm_ambiguous = false;            // launch order inside one scan was not determined
  std::map<int, RProc> procs; std::set<std::string> gone;   // gone: exe files that do not exist
  Conf conf; std::set<int> batteries;
  bool has_disk = false; Model disk;      // what the state file holds
  long launches = 0, transitions = 0, saves = 0, removed = 0;

  void load();                            // start of a daemon life (reads disk)
  int tick();                             // returns delay to tick2 in seconds
  int tick2();                            // returns delay to next tick
  void save(bool fails = false);
  void set_conf(const Conf& c);
  Model snapshot() const;
  bool accepted_exe(const std::string& p) const;
  void launch(const std::string& p);
  void forget(const std::string& p);
  std::map<std::string, double> need_exe() const;         // log-probability of not being needed, per program not running
  std::map<MMap, double> need_map() const;
  std::map<MMap, double> predicted; bool has_prediction = false;   // of the latest round
  void hydrate();
private:
  void scan(); void update();
};

// ---- everything below the scratch directory except the daemon's own files
std::map<std::string, std::string> fs_snap(bool atimes = true);
std::string fs_diff(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b);

// ---- generated histories ----
struct Profile {
  int min_apps = 1, max_apps = 4, max_lives = 2, min_cycles = 2, max_cycles = 14; bool vomm_exact = true;
  bool small_sizes = false;                // programs near the minimum size (else mostly all accepted)
  bool execs = true;
  int algo = 0;                            // 0 VOMM, 1 Markov, 2 either, 3 may switch on reload
  bool battery = false, reload = false, saves = true, deletes = false, switches = false, filters = true, autosave = false, rename_maps = false;
  bool odd_paths = false, predict = true, dumps = false, windowA = true, debug_free = false, storm = false;
  int dump_weight = 1, max_events = 2, save_weight = 1, switch_weight = 1;
  CmpOpts cmp; bool probe = true; bool check_file = true; bool check_state = true;
  bool check_running = false, check_ra = false, dup_maps = false, junk_maps = false, deny = false, check_saves = true; int procs = 0;
  bool check_report = false;               // status reports are compared with what is known and in force
  bool untouched = false;                  // nothing but the daemon's own files may change; requests come at idle I/O priority
  bool reload_all = false;                 // reloads change any key
  bool preset = true;                      // histories may begin with what an earlier lifetime left
  bool check_sums = false;                 // sequence totals when the order of launches is not determined
};
struct SimStats { int reports = 0, predictions = 0, batt = 0, noscan = 0, nopredict = 0, cycles = 0, events = 0, restarts = 0, probes = 0, removed = 0, saves = 0; long launches = 0, transitions = 0; bool ambiguous = false; int multi = 0, pairs = 0, exes = 0, bads = 0; };
// what a status report says: figures and settings
struct Report { long time = -1, exes = -1, bad = -1, maps = -1, running = -1; std::map<std::string, std::string> set; std::string text; };
Report parse_report(const std::string& text);
std::map<std::string, std::string> settings_of(const Conf& c);   // as a report shows them
std::string diff_report(const Report& r, const Model& m, int running, const Conf& c);
SimStats run_history(Src& s, Ctx& c, const Profile& p);
extern const char* STATEF; extern const char* CONFF;
