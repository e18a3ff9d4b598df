// Property-based testing engine: choice tapes, fork-per-case isolation, shrinking, replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string read_file(const std::string& path, bool* ok = nullptr);
bool write_file(const std::string& path, const std::string& data);   // harness I/O, never faulted
void rm_rf(const std::string& path);
uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash64(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash64(s.data(), s.size(), h); }
std::string printable(const std::string& s, size_t max = 400);

// Source of choices. Every random decision of a case is one draw; the list of draws is the tape.
struct Src {
  uint64_t s0 = 1, s1 = 2;
  std::vector<uint64_t> tape;   // recorded draws (or the tape to replay)
  size_t pos = 0;
  bool replay = false;
  void seed(uint64_t a, uint64_t b);
  uint64_t next();
  uint64_t draw(uint64_t n);                       // uniform in [0, n)
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo + 1)); }
  int64_t range64(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); }  // shrinks to false
  int small(int max);                              // 0..max, biased to small
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  int weighted(std::initializer_list<int> w);      // index, shrinks to 0
};

struct CaseFail { std::string sig, msg; };
struct CaseSkip { std::string why; };

// Shared-memory result of a case.
struct Slot {
  int status;            // 0 running/crashed, 1 passed, 2 failed, 3 skipped
  int nontrivial;
  uint32_t nlabels;
  char labels[96][48];
  char sig[160];
  char msg[16384];
  char sample[6000];
  char desc[200000];
  uint32_t desc_len;
  uint32_t tape_len;
  uint32_t counters[16];
  uint64_t tape[120000];
};
extern Slot* g_slot;

// Context of the running case
struct Ctx {
  Src& src;
  bool verbose = false;
  explicit Ctx(Src& s) : src(s) {}
  void label(const std::string& s);
  void nontrivial() { g_slot->nontrivial = 1; }
  void sample(const std::string& s);
  void note(const std::string& s);                 // human readable description of the case
  [[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw CaseFail{sig, msg}; }
  void check(bool ok, const std::string& sig, const std::string& msg) { if (!ok) fail(sig, msg); }
  void count(int i, uint32_t n) { g_slot->counters[i] += n; }
};

struct Mode {
  const char* name;
  void (*fn)(Src&, Ctx&);
  long quick, thorough;         // number of cases per tier
};

struct CheckDef {
  const char* id;
  const char* rule;
  std::vector<Mode> modes;
  std::vector<std::string> counter_names;
  int case_timeout_s = 40;
};
extern CheckDef g_check;        // defined by each check's translation unit

// Provided by the check process for the current case
extern std::string g_scratch;   // directory of this case (absolute, real path)
extern int g_jobs;
