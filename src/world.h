// Simulated operating system around the code under test: interposed libc calls, fake /proc and
// /sys/class/power_supply, recorded prefetch requests, file-system faults, virtual time.
#pragma once
#include "engine.h"
#include <sys/types.h>
#include <glib.h>

#define ROOT "/tmp/.vp-root"          // symlink to /proc/self/fd/900 = this case's scratch directory
#define ROOTFD 900

// ---- shared event log (survives fork; written by interposers in any process of the case) ----
void log_reset();
void log_event(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::vector<std::string> log_lines();
struct Req { char kind; std::string path; uint64_t off, len; int err, pid; };   // R readahead, M memory advice
std::vector<Req> log_reqs(size_t from = 0, size_t* end = nullptr);             // prefetch requests of log lines [from, end)
struct Ranges {                                                                 // set of bytes
  std::map<uint64_t, uint64_t> r;                                               // start -> end, disjoint, not touching
  void add(uint64_t a, uint64_t b); bool contains(const Ranges& o) const; bool operator==(const Ranges& o) const { return r == o.r; }
  std::string str() const;
};
std::map<std::string, Ranges> cover(const std::vector<Req>& v);

// ---- fake process table ----
struct FMap { std::string path; uint64_t off, len; std::string raw; };   // raw: literal line instead
struct FProc { int pid; std::string exe; std::vector<FMap> maps; bool no_maps = false, no_exe = false, maps_text_set = false; std::string maps_text; };
void proc_put(const FProc& p);        // create or replace /proc/PID
void proc_del(int pid);
void proc_clear();
struct MemInfo { long total = 4000000, free_ = 2000000, available = 3000000, buffers = 100000, cached = 500000; bool has_available = true; };
void meminfo_put(const MemInfo& m);
void meminfo_raw(const std::string& s);
void battery_put(int n, const char* status);   // nullptr removes

// real files below ROOT (p is the virtual absolute path, starting with ROOT)
void mkfile(const std::string& p, uint64_t size = 4096);
void rmfile(const std::string& p);
std::string realpath_of(const std::string& p);  // ROOT/x -> scratch/x

// ---- behaviour switches of the interposers (per process; inherited by fork) ----
struct WorldCfg {
  bool fake_proc = false;          // redirect /proc and /sys/class/power_supply
  bool record_ra = false;          // log readahead and do not perform it
  std::map<std::string, int>* ra_errno = nullptr;   // per path errno for readahead (0 = ok)
  std::map<std::string, int>* open_errno = nullptr; // per path errno for read-only open
  std::map<std::string, int>* wopen_errno = nullptr; // per path errno for opening to write
  const char* wopen_prefix = nullptr; int wopen_prefix_errno = 0;   // errno for opening to write any path that begins so
  std::map<std::string, int>* write_errno = nullptr; // per path errno for write
  std::map<std::string, int>* rename_errno = nullptr; // per source path errno for rename
  std::map<std::string, int>* stat_errno = nullptr; // per path errno for stat family
  std::map<std::string, int>* fstat_errno = nullptr; // per path errno for fstat of an open file
  std::map<std::string, int>* fibmap = nullptr;     // path -> block (negative: -errno)
  bool fake_fibmap = false;
  std::map<std::string, uint64_t>* inos = nullptr;  // path -> inode number reported
  // fork faults
  std::vector<int>* fork_errno = nullptr; int fork_n = 0;   // errno per fork call (0 = real)
  std::vector<int>* wait_errno = nullptr; int wait_n = 0;
  void (*on_fork_parent)(int nth, pid_t pid) = nullptr;
  void (*on_fork_child)(int nth) = nullptr;
  void (*on_readahead)() = nullptr;
  void (*on_point)() = nullptr;                      // some other point of activity: system calls, going to sleep
  void (*on_wopen)(const char*) = nullptr;           // something is opened for writing
  bool log_io = false;                               // log the I/O priority class of requests that are not at idle priority
  void (*on_open)(const char*) = nullptr; void (*on_renamed)(const char*) = nullptr;
  int fork_calls = 0;
  // file-system faults
  bool fs_armed = false; int fs_count = 0; int fs_at = -1; int fs_kind = 0; int fs_err = 0; long fs_arg = 0; int fs_fired = 0; int fs_sticky = 0;
  std::vector<std::string>* fs_trace = nullptr;
  // virtual time
  bool vtime = false; int64_t vnow_us = 0;
};
extern WorldCfg W;
enum { FS_ERR = 1, FS_KILL = 2, FS_SHORT = 3, FS_KILL_AFTER = 4, FS_SHORT_KILL = 5 };

int count_fds();
int count_children();              // live or zombie children of this process
pid_t real_fork();
int real_waitpid(pid_t p, int* st, int fl);
std::string slurp(const std::string& virt);     // read a file below ROOT
bool exists(const std::string& virt);
