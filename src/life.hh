// A World that knows where in the files each of its commits ends.
#pragma once
#include "script.hh"

// Where each commit ends: newest data file and its size.
struct End { uint32_t file; size_t size; };
struct Life {
  World w; std::vector<std::pair<Map, End>> commits; // in order of the files
  Life(Ctx &c, unsigned a) : w(c, a) {}
  End now() { Files f = db_files(w.path); End e{0, 0}; for (auto &x : f) if (is_data_name(x.first)) { uint32_t i = strtoul(x.first.c_str(), 0, 10); if (i >= e.file) e = {i, x.second.size()}; } return e; }
};
inline void set_hist(World &w, const std::vector<std::pair<Map, End>> &cs) { w.hist.clear(); w.order.clear(); w.hist[H32{}] = Map(); for (auto &x : cs) { H32 r = ref_root(x.first); if (!w.hist.count(r)) { w.hist[r] = x.first; w.order.push_back(r); } } }

inline std::vector<std::pair<Map, End>> intact_upto(const std::vector<std::pair<Map, End>> &cs, uint32_t file, size_t size) {
  std::vector<std::pair<Map, End>> v;
  for (auto &x : cs) { if (x.second.file < file || (x.second.file == file && x.second.size <= size)) v.push_back(x); else break; }
  return v;
}
inline void life_steps(Life &L, size_t n) {
  World &w = L.w; uint64_t nc = w.n.commits;
  w.after = [&](const char *) { if (w.n.commits != nc) { nc = w.n.commits; L.commits.push_back({w.committed, L.now()}); } };
  for (size_t i = 0; i < n; i++) w.step();
  w.after = nullptr;
}
