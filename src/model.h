// Reference representation of the learned model, independent reader/writer of the state file format,
// and extraction from the structures of the code under test.
#pragma once
#include "engine.h"
#include <cmath>
#include <memory>

struct MMap {
  std::string path; uint64_t off = 0, len = 0;
  bool operator<(const MMap& o) const { return path != o.path ? path < o.path : off != o.off ? off < o.off : len < o.len; }
  bool operator==(const MMap& o) const { return path == o.path && off == o.off && len == o.len; }
  std::string str() const { return fmt("%s@%llu+%llu", printable(path).c_str(), (unsigned long long)off, (unsigned long long)len); }
};
struct MExe { long long time = 0; std::vector<MMap> maps; long long update_time = 0; };
struct MMk {
  long long time = 0; double ttl[4] = {0, 0, 0, 0}; int w[4][4] = {{0}};
  int state = -1;                       // runtime only, -1 = unknown
  MMk swapped() const;
};
struct VNode { int count = 0; std::map<std::string, VNode> ch; };
struct Model {
  long long time = 0;
  std::set<MMap> maps;
  std::map<MMap, long long> map_update;
  std::map<std::string, MExe> exes;
  std::map<std::string, long long> bad;
  std::map<std::pair<std::string, std::string>, MMk> mk;   // key a<b, normalised orientation
  VNode vomm;
  void put_mk(const std::string& a, const std::string& b, const MMk& m) { if (a < b) mk[{a, b}] = m; else mk[{b, a}] = m.swapped(); }
};
struct CmpOpts { bool time = true, maps = true, exes = true, exe_time = true, exe_maps = true, bad = true, mk = true, mk_time = true, mk_stats = true, vomm = true, update_time = false; double tol = 2e-5; };

bool parse_state(const std::string& text, Model& m, std::string& err);     // strict, whole file must be well formed
std::string emit_state(const Model& m, Src* shuffle = nullptr, const char* version = "0.6.4");
std::string diff_models(const Model& a, const Model& b, const CmpOpts& o = CmpOpts());   // "" = equal
Model dump_sut();                                                          // from the in-memory structures
std::string vnode_str(const VNode& n, const std::string& pre = "");
std::string model_str(const Model& m);
std::string to_uri(const std::string& path);
bool from_uri(const std::string& uri, std::string& path);
