// What can be observed of a database, for comparisons before and after.
#pragma once
#include "world.hh"
#include "util.hh"

// Everything that can be seen of a database and the open views, as text.
struct Seen { Files files; std::vector<std::pair<std::string, Bytes>> v; };
inline Bytes rec(const api::RV &r) { return r.ok ? "=" + r.v : sfmt("!%d", r.err); }
inline void see_tx(World &w, Seen &o, const std::string &n, urkel_tx_t *t) {
  { H32 h = api::tx_root(t); o.v.push_back({n + " root", Bytes((char *)h.data(), 32)}); }
  for (auto &k : w.keys) o.v.push_back({n + " get " + kx(k), rec(api::tx_get(t, k))});
  urkel_iter_t *it = api::iter_create(t); Bytes all;
  for (;;) { api::It r = api::iter_next(it); if (!r.ok) { all += sfmt("end %d", r.err); break; } all += Bytes((char *)r.key.data(), 32) + sfmt("%zu:", r.v.size()) + r.v; if (all.size() > 1 << 20) break; }
  api::iter_destroy(it); o.v.push_back({n + " iteration", all});
  o.v.push_back({n + " proof", rec(api::tx_prove(t, w.keys[0]))});
}
inline Seen see(World &w) {
  Seen o; o.files = db_files(w.path);
  { H32 h = api::root(w.db); o.v.push_back({"database root", Bytes((char *)h.data(), 32)}); }
  urkel_tx_t *t = api::tx_create(w.db); if (t) { see_tx(w, o, "database", t); api::tx_destroy(t); }
  for (size_t i = 0; i < w.txs.size(); i++) see_tx(w, o, sfmt("transaction %zu", i), w.txs[i].tx);
  size_t k = 0;
  for (auto &h : w.hist) { if (k++ >= 4) break; urkel_tx_t *x = api::tx_create(w.db, &h.first); o.v.push_back({"snapshot " + shx(h.first), x ? "" : "refused"}); if (x) { see_tx(w, o, "snapshot " + shx(h.first), x); api::tx_destroy(x); } }
  return o;
}
inline void same(const Seen &a, const Seen &b, const char *what) {
  std::string d = files_diff(a.files, b.files);
  REQUIRE(d.empty(), "after a failed %s: %s", what, d.c_str());
  for (size_t i = 0; i < a.v.size() && i < b.v.size(); i++) REQUIRE(a.v[i] == b.v[i], "after a failed %s: %s has changed", what, a.v[i].first.c_str());
  REQUIRE(a.v.size() == b.v.size(), "after a failed %s the views differ", what);
}
