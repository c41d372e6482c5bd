// Programs for several databases; whatever the others do, each call must answer
// as it does when its program runs alone.
#pragma once
#include "conc.hh"
#include "limits.hh"

namespace solo {
enum K { OPEN, CLOSE, DESTROY, BEGIN, DROP, INSERT, REMOVE, GET, HAS, PROVE, ROOT, COMMIT, CLEAR, REBASE, HOLD, NEXT, END, ITER, DB_INSERT, DB_REMOVE, DB_GET, DB_PROVE, DB_ITER, DB_ROOT, REVERT, NK };
static const char *const kname[] = {"open", "close", "destroy", "begin", "drop", "insert", "remove", "get", "has", "prove", "root", "commit", "clear", "rebase", "hold iterator", "next", "end iterator", "iterate", "db insert", "db remove", "db get", "db prove", "db iterate", "db root", "revert"};
struct Step { K k; int tx = 0; H32 key{}; Bytes v; int at = -1; };

struct Program {
  std::vector<Step> steps;
  static Program gen(Src &s, const Keys &keys, size_t n, unsigned who) {
    Program p; bool open = false, tx[3] = {}, held = false; int hold_tx = -1; size_t commits = 0;
    auto add = [&](Step x) { p.steps.push_back(x); };
    auto drop_all = [&] { if (held) { add({END}); held = false; } for (int i = 0; i < 3; i++) if (tx[i]) { add({DROP, i}); tx[i] = false; } };
    for (size_t i = 0; i < n; i++) {
      Span sp(s);
      if (!open) { if (s.chance(1, 10)) add({DESTROY}); add({OPEN}); open = true; }
      Step x{GET}; x.tx = s.below(3); x.key = keys[s.below(keys.size())];
      x.v = mk_value(s.pickl({3, 0, 12, 60, 300, 1023}), s.below(8) * 8 + who); x.at = s.chance(1, 3) && commits ? (int)s.below(commits) : -1;
      static const unsigned w[NK] = {0, 2, 0, 4, 2, 16, 5, 8, 2, 4, 3, 9, 2, 2, 3, 4, 0, 3, 3, 2, 3, 2, 2, 3, 2};
      x.k = (K)s.weighted(w, NK);
      if (x.k >= DROP && x.k <= REBASE && x.k != COMMIT && !tx[x.tx] && !held) { add({BEGIN, x.tx, {}, "", s.chance(1, 6) ? x.at : -1}); tx[x.tx] = true; }
      bool writes = x.k == COMMIT || x.k == CLEAR || x.k == REBASE || x.k == DB_INSERT || x.k == DB_REMOVE || x.k == REVERT || x.k == BEGIN || (held && (x.k == DB_GET || x.k == DB_PROVE || x.k == DB_ITER || x.k == DB_ROOT || x.k == ROOT || x.k == PROVE));
      bool own = x.k == INSERT || x.k == REMOVE || x.k == DROP;
      if (held && (writes || (own && x.tx == hold_tx))) { add({END}); held = false; }
      switch (x.k) {
        case CLOSE: drop_all(); add(x); open = false; break;
        case BEGIN: if (tx[x.tx]) add({DROP, x.tx}); add(x); tx[x.tx] = true; break;
        case DROP: if (tx[x.tx]) { add(x); tx[x.tx] = false; } break;
        case HOLD: if (held || !tx[x.tx]) break; add(x); held = true; hold_tx = x.tx; break;
        case NEXT: if (held) add(x); break;
        case COMMIT: case INSERT: case REMOVE: case GET: case HAS: case PROVE: case ROOT: case CLEAR: case REBASE: case ITER: if (!tx[x.tx]) break; if (x.k == COMMIT) commits++; add(x); break;
        case DB_INSERT: case DB_REMOVE: commits++; add(x); break;
        default: add(x); break;
      }
    }
    drop_all();
    if (open) add({CLOSE});
    add({OPEN}); add({DB_ITER}); add({DB_ROOT}); add({CLOSE});
    return p;
  }
  std::string show(size_t i) const { const Step &x = steps[i]; std::string r = kname[x.k]; if (x.k >= BEGIN && x.k <= ITER) r += sfmt(" tx%d", x.tx); if ((x.k >= INSERT && x.k <= PROVE) || (x.k >= DB_INSERT && x.k <= DB_PROVE)) r += " " + kx(x.key); if (x.k == INSERT || x.k == DB_INSERT) r += sfmt(" = %zu bytes", x.v.size()); if (x.at >= 0) r += sfmt(" root %d", x.at); return r; }
};

struct Player {
  const Program &p; std::string path; size_t at = 0; bool busy = false;
  urkel_t *db = nullptr; urkel_tx_t *tx[3] = {}; urkel_iter_t *it = nullptr;
  std::vector<H32> roots; std::vector<Bytes> out;
  Player(const Program &p_, const std::string &pa) : p(p_), path(pa) {}
  bool done() const { return at >= p.steps.size(); }
  static Bytes b(const H32 &h) { return Bytes((const char *)h.data(), 32); }
  template <class R> static Bytes rv(const R &r) { return r.ok ? "ok " + r.v : std::string(err_name(r.err)); }
  static Bytes r0(const api::R &r) { return r.ok ? "ok" : err_name(r.err); }
  static Bytes all(urkel_iter_t *i, int e) { if (!i) return err_name(e); Bytes o; for (int n = 0; n < 5000; n++) { api::It r = api::iter_next(i); if (!r.ok) { o += err_name(r.err); break; } o += b(r.key) + r.v + ";"; } api::iter_destroy(i); return o; }
  void step() {
    const Step &x = p.steps[at]; Bytes o; int e = 0; const H32 zero{}; H32 ra = x.at >= 0 && !roots.empty() ? roots[x.at % roots.size()] : zero; const H32 *rp = x.at >= 0 ? &ra : nullptr;
    busy = true;
    switch (x.k) {
      case OPEN: db = api::open(path, &e); o = db ? "ok" : err_name(e); break;
      case CLOSE: if (db) api::close(db); db = nullptr; break;
      case DESTROY: o = r0(api::destroy(path)); if (o == "ok") roots.clear(); break;
      default: if (!db) { o = "closed"; break; }
        if (x.k >= DROP && x.k <= ITER && x.k != NEXT && x.k != END && !tx[x.tx]) { o = "no tx"; break; }
        switch (x.k) {
          case BEGIN: tx[x.tx] = api::tx_create(db, rp, &e); o = tx[x.tx] ? "ok" : err_name(e); break;
          case DROP: api::tx_destroy(tx[x.tx]); tx[x.tx] = nullptr; break;
          case INSERT: o = r0(api::tx_insert(tx[x.tx], x.key, x.v)); break;
          case REMOVE: o = r0(api::tx_remove(tx[x.tx], x.key)); break;
          case GET: o = rv(api::tx_get(tx[x.tx], x.key)); break;
          case HAS: o = r0(api::tx_has(tx[x.tx], x.key)); break;
          case PROVE: { api::RV q = api::tx_prove(tx[x.tx], x.key); o = rv(q); if (q.ok) { api::V v = api::verify(q.v, x.key, api::tx_root(tx[x.tx])); o += v.ok ? (v.exists ? "y" + v.v : "n") : err_name(v.err); } break; }
          case ROOT: o = b(api::tx_root(tx[x.tx])); break;
          case COMMIT: { api::R q = api::tx_commit(tx[x.tx]); o = r0(q); if (q.ok) { roots.push_back(api::root(db)); o += b(roots.back()); } break; }
          case CLEAR: api::tx_clear(tx[x.tx]); break;
          case REBASE: o = r0(api::tx_inject(tx[x.tx], ra)); break;
          case HOLD: it = api::iter_create(tx[x.tx]); o = it ? "ok" : "none"; break;
          case NEXT: if (it) { api::It q = api::iter_next(it); o = q.ok ? b(q.key) + q.v : err_name(q.err); } break;
          case END: if (it) api::iter_destroy(it); it = nullptr; break;
          case ITER: o = all(api::iter_create(tx[x.tx]), 0); break;
          case DB_INSERT: { api::R q = api::insert(db, x.key, x.v); o = r0(q); if (q.ok) roots.push_back(api::root(db)); break; }
          case DB_REMOVE: { api::R q = api::remove(db, x.key); o = r0(q); if (q.ok) roots.push_back(api::root(db)); break; }
          case DB_GET: o = rv(api::get(db, x.key, rp)); break;
          case DB_PROVE: o = rv(api::prove(db, x.key, rp)); break;
          case DB_ITER: { urkel_iter_t *i = api::iterate(db, rp, &e); o = all(i, e); break; }
          case DB_ROOT: o = b(api::root(db)); break;
          case REVERT: o = r0(api::inject(db, ra)); break;
          default: break;
        }
    }
    busy = false; out.push_back(o); at++;
  }
  void run() { while (!done()) step(); }
  std::string describe() const { return done() ? "finished" : p.show(at); }
  void quit() { if (it) api::iter_destroy(it); it = nullptr; for (auto &t : tx) if (t) { api::tx_destroy(t); t = nullptr; } if (db) api::close(db); db = nullptr; }
};
inline std::string brief(const Bytes &b) { bool text = b.size() < 60; for (char ch : b) if (ch < 32 || ch > 126) text = false; return text ? "'" + b + "'" : sfmt("%zu bytes %s..", b.size(), hex(b.data(), std::min<size_t>(b.size(), 24)).c_str()); }
inline void compare(const Player &alone, const Player &among, size_t who, const char *how) {
  for (size_t i = 0; i < alone.out.size(); i++) {
    REQUIRE(i < among.out.size(), "database %zu, call %zu (%s) did not come to an end %s", who, i, alone.p.show(i).c_str(), how);
    REQUIRE(alone.out[i] == among.out[i], "database %zu, call %zu (%s): %s %s, alone %s", who, i, alone.p.show(i).c_str(), brief(among.out[i]).c_str(), how, brief(alone.out[i]).c_str());
  }
}
struct Set {
  Ctx &c; Src &s; Limits lim; Keys keys; std::vector<Program> progs; std::vector<Player> alone, among;
  Set(Ctx &c_, size_t n, size_t len) : c(c_), s(c_.s) {
    if (s.chance(1, 2)) gen_limits(c, 1, 2);
    keys = gen_keys(s, 16);
    for (size_t i = 0; i < n; i++) { Span sp(s); progs.push_back(Program::gen(s, keys, 3 + s.below(len), i)); }
    for (size_t i = 0; i < n; i++) { c.logf("database %zu:", i); for (size_t j = 0; j < progs[i].steps.size() && j < 60; j++) c.logf("  %s", progs[i].show(j).c_str()); }
    static const char *const nm[] = {"db", "db2", "db.d", "d"};
    std::string a = c.dir + "/alone", b = c.dir + "/among"; mkdir(a.c_str(), 0755); mkdir(b.c_str(), 0755);
    for (size_t i = 0; i < n; i++) { alone.emplace_back(progs[i], a + "/" + nm[i]); among.emplace_back(progs[i], b + "/" + nm[i]); }
    for (auto &p : alone) { p.run(); p.quit(); }
  }
  void judge(const char *how) { for (auto &p : among) p.quit(); for (size_t i = 0; i < alone.size(); i++) compare(alone[i], among[i], i, how); size_t n = 0; for (auto &p : alone) n += p.roots.size(); c.label("calls compared", [&] { size_t z = 0; for (auto &p : alone) z += p.out.size(); return z; }()); }
  size_t busy() const { size_t n = 0; for (auto &p : alone) n += p.roots.size() > 0; return n; }
};
} // namespace solo
