// A database next to a dictionary model of it, and random histories of calls.
#pragma once
#include "api.hh"
#include "gen.hh"
#include "limits.hh"
#include <sys/stat.h>

// What a check judges. Anything else that goes wrong ends the case unjudged.
enum Aspect : unsigned { A_MAP = 1, A_ROOT = 2, A_PROOF = 4, A_ITER = 8, A_HIST = 16, A_ISO = 32, A_REOPEN = 64, A_REVERT = 128, A_ERR = 256, A_ALL = 0xffff };
struct Skip { std::string why; };

enum Op { O_TX_OPEN, O_TX_AT, O_TX_DESTROY, O_TX_CLEAR, O_TX_INJECT, O_INSERT, O_UPDATE, O_SAME, O_REMOVE, O_REMOVE_ABSENT, O_GET, O_HAS, O_PROVE, O_ITER, O_TX_ROOT,
  O_COMMIT, O_ONE_INSERT, O_ONE_REMOVE, O_ONE_GET, O_ONE_HAS, O_ONE_PROVE, O_ONE_ITER, O_DB_ROOT, O_INJECT, O_REOPEN, O_BURST, O_REMOVE_ALL, O_FULL, O_BAD, O_N };

// Keys changed since something committed; true: came or went, rather than took another value.
typedef std::map<H32, bool> Touched;
struct TxM { urkel_tx_t *tx; Map m; bool dirty; Touched touched = {}; };

struct World {
  Limits lim; // restored in the end
  Ctx &c;
  Src &s;
  unsigned aspects;
  std::string path;
  urkel_t *db = nullptr;
  Keys keys;                       // universe
  Map base;                        // where the database stands
  Map committed;                   // what is durable
  Touched touched;                 // keys that the last commit changed (and perhaps changed back)
  std::map<H32, Map> hist;         // every committed root
  std::vector<H32> order;
  std::vector<TxM> txs;
  unsigned w[O_N];
  size_t max_txs = 4;
  size_t max_hist = 24;            // snapshots are kept in memory
  // what happened, for the non-triviality rules
  struct { uint64_t commits = 0, reopens = 0, inserts = 0, overwrites = 0, removes = 0, gets_buffered = 0, gets_stored = 0, reverts = 0, snapshots = 0, proofs = 0, iters = 0, max_depth = 0, mixed = 0, empties = 0, bads = 0; } n;
  // called after every step
  std::function<void(const char *)> after;

  World(Ctx &c_, unsigned a) : c(c_), s(c_.s), aspects(a), path(c_.dir + "/db") {
    static const unsigned dw[O_N] = {4, 2, 3, 2, 2, 16, 8, 3, 10, 3, 10, 5, 4, 3, 3, 8, 2, 2, 3, 2, 2, 2, 3, 1, 2, 4, 1, 1, 1};
    memcpy(w, dw, sizeof w);
    hist[H32{}] = Map();
  }

  void chk(unsigned a, bool ok, const char *fmt, ...) __attribute__((format(printf, 4, 5))) {
    if (ok) return;
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (a & aspects) throw Failure{b};
    c.logf("not judged here: %s", b);
    throw Skip{b};
  }

  // Files that roll over and small buffers, in some of the cases.
  void limits(unsigned num = 1, unsigned den = 4) { if (s.chance(num, den)) { gen_limits(c, 1, 2); c.label("cases with lowered limits"); } }

  // Expected results -----------------------------------------------------------
  void chk_get(unsigned a, const char *what, const api::RV &r, const Map &m, const H32 &k) {
    auto it = m.find(k);
    if (it == m.end()) {
      chk(a, !r.ok, "%s(%s): found %zu bytes for an absent key", what, kx(k).c_str(), r.v.size());
      chk(a | A_ERR, r.err == URKEL_ENOTFOUND, "%s(%s): absent key gives %s instead of ENOTFOUND", what, kx(k).c_str(), err_name(r.err));
    } else {
      chk(a, r.ok, "%s(%s): stored key fails with %s", what, kx(k).c_str(), err_name(r.err));
      chk(a, r.v == it->second, "%s(%s): %zu bytes [%s..] instead of %zu bytes [%s..]", what, kx(k).c_str(), r.v.size(), hex(r.v.data(), std::min<size_t>(8, r.v.size())).c_str(), it->second.size(), hex(it->second.data(), std::min<size_t>(8, it->second.size())).c_str());
    }
  }
  void chk_has(unsigned a, const char *what, const api::R &r, const Map &m, const H32 &k) {
    bool e = m.count(k);
    chk(a, !!r.ok == e, "%s(%s): %d (%s), the key is %s", what, kx(k).c_str(), r.ok, err_name(r.err), e ? "present" : "absent");
    if (!e) chk(a | A_ERR, r.err == URKEL_ENOTFOUND, "%s(%s): absent key gives %s instead of ENOTFOUND", what, kx(k).c_str(), err_name(r.err));
  }
  void chk_proof(unsigned a, const char *what, const api::RV &r, const Map &m, const H32 &k, const H32 &root, bool bytes = true) {
    chk(a, r.ok, "%s(%s): fails with %s", what, kx(k).c_str(), err_name(r.err));
    api::V v = api::verify(r.v, k, root);
    auto it = m.find(k);
    chk(a, v.ok, "%s(%s): the proof does not verify against the root of its view: %s", what, kx(k).c_str(), err_name(v.err));
    chk(a, v.exists == (it != m.end()), "%s(%s): the proof says %s", what, kx(k).c_str(), v.exists ? "present, it is absent" : "absent, it is present");
    if (it != m.end()) chk(a, v.v == it->second, "%s(%s): the proof gives another value (%zu bytes, not %zu)", what, kx(k).c_str(), v.v.size(), it->second.size());
    if (bytes) {
      Bytes e = ref_encode(ref_prove(m, k));
      chk(a, r.v == e, "%s(%s): proof bytes differ from the wire format: %s expected %s", what, kx(k).c_str(), hex(r.v.data(), r.v.size()).c_str(), hex(e.data(), e.size()).c_str());
    }
    n.proofs++;
  }
  // Runs an iterator to its end (and takes it).
  void chk_iter(unsigned a, const char *what, urkel_iter_t *it, const Map &m, bool keys_only = false, urkel_tx_t *reads = nullptr, bool stop_early = false) {
    struct G { urkel_iter_t *i; ~G() { if (i) api::iter_destroy(i); } } g{it};
    chk(a, it != nullptr, "%s: no iterator (%s)", what, err_name(urkel_errno));
    size_t i = 0, stop = stop_early && m.size() ? s.below(m.size()) : (size_t)-1;
    for (auto &kv : m) {
      if (i == stop) { c.logf("   stopped after %zu of %zu", i, m.size()); return; }
      api::It r = api::iter_next(it, keys_only);
      chk(a, r.ok, "%s: ends with %s after %zu of %zu records", what, err_name(r.err), i, m.size());
      chk(a, r.key == kv.first, "%s: record %zu has key %s instead of %s", what, i, hex(r.key).c_str(), hex(kv.first).c_str());
      if (!keys_only) chk(a, r.v == kv.second, "%s: record %zu has the wrong value (%zu bytes, not %zu)", what, i, r.v.size(), kv.second.size());
      if (reads && (i % 3) == 1) { chk_get(a | A_MAP, "get while iterating", api::tx_get(reads, kv.first), m, kv.first); }
      i++;
    }
    for (int e = 0; e < 3; e++) {
      api::It r = api::iter_next(it, keys_only);
      chk(a, !r.ok, "%s: a record beyond the %zu of the view: key %s", what, m.size(), hex(r.key).c_str());
      chk(a | A_ERR, r.err == URKEL_EITEREND, "%s: the end is reported as %s", what, err_name(r.err));
    }
    n.iters++;
  }

  // A view compared with the model in every way the aspects ask for.
  void full_tx(unsigned a, const char *what, urkel_tx_t *tx, const Map &m, bool all_proofs = false) {
    H32 r = ref_root(m);
    if (aspects & (A_ROOT | A_PROOF | a)) { H32 g = api::tx_root(tx); chk(A_ROOT | a, g == r, "%s: root %s instead of %s (%zu records)", what, shx(g).c_str(), shx(r).c_str(), m.size()); }
    for (auto &k : keys) { chk_get(A_MAP | a, what, api::tx_get(tx, k), m, k); }
    if (keys.size()) { const H32 &k = keys[s.below(keys.size())]; chk_has(A_MAP | a, what, api::tx_has(tx, k), m, k); }
    chk_iter(A_ITER | a, what, api::iter_create(tx), m);
    if (all_proofs) for (auto &k : keys) chk_proof(A_PROOF | a, what, api::tx_prove(tx, k), m, k, r);
    else if (keys.size()) { const H32 &k = keys[s.below(keys.size())]; chk_proof(A_PROOF | a, what, api::tx_prove(tx, k), m, k, r); }
    n.snapshots++;
  }
  void full_root(unsigned a, const char *what, const H32 &root, const Map &m) {
    int e; urkel_tx_t *tx = api::tx_create(db, &root, &e);
    chk(a | A_HIST, tx != nullptr, "%s: the committed root %s (%zu records) is refused: %s", what, shx(root).c_str(), m.size(), err_name(e));
    full_tx(a | A_HIST, what, tx, m);
    api::tx_destroy(tx);
  }
  void full_db(unsigned a, const char *what, bool history = true) {
    H32 g = api::root(db), r = ref_root(base);
    chk(a | A_ROOT, g == r, "%s: database root %s instead of %s", what, shx(g).c_str(), shx(r).c_str());
    urkel_tx_t *tx = api::tx_create(db);
    chk(a, tx != nullptr, "%s: cannot create a transaction: %s", what, err_name(urkel_errno));
    full_tx(a, what, tx, base);
    api::tx_destroy(tx);
    if (history) for (auto &h : hist) full_root(a, what, h.first, h.second);
  }

  // Life cycle -------------------------------------------------------------------
  void open(unsigned a = A_REOPEN) {
    int e; db = api::open(path, &e);
    chk(a, db != nullptr, "open fails with %s", err_name(e));
  }
  void close() {
    for (auto &t : txs) api::tx_destroy(t.tx);
    txs.clear();
    if (db) api::close(db);
    db = nullptr;
  }
  void reopen() {
    close(); base = committed; open(); n.reopens++;
    H32 g = api::root(db), r = ref_root(base);
    chk(A_REOPEN | A_ROOT, g == r, "after reopening, the root is %s instead of %s (%zu records)", shx(g).c_str(), shx(r).c_str(), base.size());
  }
  void did_commit(const Map &m) {
    base = committed = m; n.commits++;
    H32 r = ref_root(m);
    if (!hist.count(r)) { if (hist.size() < max_hist) { hist[r] = m; order.push_back(r); } }
  }
  TxM &tx_any() { if (txs.empty()) tx_open(); return txs[s.below(txs.size())]; }
  void tx_open() {
    urkel_tx_t *t = api::tx_create(db);
    chk(A_ALL, t != nullptr, "cannot create a transaction: %s", err_name(urkel_errno));
    txs.push_back({t, base, false});
  }
  const H32 &some_root() { if (order.empty() || s.chance(1, 8)) { static const H32 z{}; return z; } return order[s.below(order.size())]; }
  H32 some_key(const Map &m, bool present) {
    if (present && !m.empty()) { auto it = m.lower_bound(keys[s.below(keys.size())]); if (it == m.end()) it = m.begin(); return it->first; }
    if (!present && s.chance(1, 3)) { H32 k = gen_near(s, keys); return k; }
    return keys[s.below(keys.size())];
  }
  H32 any_key(const Map &m) { return some_key(m, s.chance(1, 2)); }

  void do_insert(TxM &t, const H32 &k, const Bytes &v) {
    auto it = t.m.find(k);
    c.logf("  insert %s = %zu bytes [%s..]%s", kx(k).c_str(), v.size(), hex(v.data(), std::min<size_t>(4, v.size())).c_str(), it == t.m.end() ? "" : it->second == v ? " (same)" : " (overwrite)");
    api::R r = api::tx_insert(t.tx, k, v);
    chk(A_MAP, r.ok, "insert of %zu bytes fails with %s", v.size(), err_name(r.err));
    n.inserts++; if (it != t.m.end() && it->second != v) n.overwrites++;
    bool fresh = it == t.m.end(); t.m[k] = v; t.dirty = true; t.touched[k] |= fresh;
  }
  void do_remove(TxM &t, const H32 &k) {
    bool e = t.m.count(k);
    c.logf("  remove %s%s", kx(k).c_str(), e ? "" : " (absent)");
    api::R r = api::tx_remove(t.tx, k);
    chk(A_MAP, !!r.ok == e, "remove(%s): %d (%s), the key is %s", kx(k).c_str(), r.ok, err_name(r.err), e ? "present" : "absent");
    if (!e) chk(A_MAP | A_ERR, r.err == URKEL_ENOTFOUND, "remove of an absent key gives %s", err_name(r.err));
    else { n.removes++; t.m.erase(k); t.dirty = true; t.touched[k] = true; if (t.m.empty()) n.empties++; }
  }
  void do_commit(size_t i) {
    TxM &t = txs[i];
    c.logf("tx%zu commit (%zu records)", i, t.m.size());
    api::R r = api::tx_commit(t.tx);
    chk(A_ALL, r.ok, "commit fails with %s", err_name(r.err));
    t.dirty = false; touched.swap(t.touched); t.touched.clear();
    did_commit(t.m);
    if (aspects & (A_ROOT | A_ISO)) { H32 g = api::root(db), e = ref_root(base); chk(A_ROOT | A_ISO, g == e, "after a commit the database root is %s instead of %s", shx(g).c_str(), shx(e).c_str()); }
  }

  void step() {
    Span sp(s);
    Op op = (Op)s.weighted(w, O_N);
    switch (op) {
      case O_TX_OPEN: if (txs.size() >= max_txs) break; c.logf("tx%zu = begin", txs.size()); tx_open(); break;
      case O_TX_AT: {
        if (txs.size() >= max_txs) break;
        H32 r = some_root(); int e; c.logf("tx%zu = begin at %s", txs.size(), shx(r).c_str());
        urkel_tx_t *t = api::tx_create(db, &r, &e);
        chk(A_HIST, t != nullptr, "the committed root %s is refused: %s", shx(r).c_str(), err_name(e));
        txs.push_back({t, hist[r], false}); break; }
      case O_TX_DESTROY: {
        if (txs.empty()) break;
        size_t i = s.below(txs.size()); c.logf("tx%zu destroy", i); api::tx_destroy(txs[i].tx); txs.erase(txs.begin() + i); break; }
      case O_TX_CLEAR: { if (txs.empty()) break; size_t i = s.below(txs.size()); c.logf("tx%zu clear", i); api::tx_clear(txs[i].tx); txs[i].m = base; txs[i].dirty = false; txs[i].touched.clear(); break; }
      case O_TX_INJECT: {
        if (txs.empty()) break;
        size_t i = s.below(txs.size()); H32 r = some_root(); c.logf("tx%zu inject %s", i, shx(r).c_str());
        api::R x = api::tx_inject(txs[i].tx, r);
        chk(A_HIST | A_REVERT, x.ok, "re-basing on the committed root %s fails with %s", shx(r).c_str(), err_name(x.err));
        txs[i].m = hist[r]; txs[i].dirty = false; txs[i].touched.clear(); break; }
      case O_INSERT: { TxM &t = tx_any(); do_insert(t, some_key(t.m, false), gen_value(s)); break; }
      case O_UPDATE: { TxM &t = tx_any(); do_insert(t, some_key(t.m, true), gen_value(s)); break; }
      case O_SAME: { TxM &t = tx_any(); H32 k = some_key(t.m, true); auto it = t.m.find(k); do_insert(t, k, it == t.m.end() ? gen_value(s) : Bytes(it->second)); break; }
      case O_REMOVE: { TxM &t = tx_any(); do_remove(t, some_key(t.m, true)); break; }
      case O_REMOVE_ABSENT: { TxM &t = tx_any(); do_remove(t, some_key(t.m, false)); break; }
      case O_GET: { TxM &t = tx_any(); H32 k = any_key(t.m); c.logf("  get %s", kx(k).c_str()); chk_get(A_MAP, "tx_get", api::tx_get(t.tx, k), t.m, k); if (t.dirty) n.gets_buffered++; else n.gets_stored++; break; }
      case O_HAS: { TxM &t = tx_any(); H32 k = any_key(t.m); c.logf("  has %s", kx(k).c_str()); chk_has(A_MAP, "tx_has", api::tx_has(t.tx, k), t.m, k); break; }
      case O_PROVE: { TxM &t = tx_any(); H32 k = any_key(t.m); c.logf("  prove %s", kx(k).c_str()); chk_proof(A_PROOF, "tx_prove", api::tx_prove(t.tx, k), t.m, k, ref_root(t.m)); break; }
      case O_ITER: {
        TxM &t = tx_any(); c.logf("  iterate %zu records", t.m.size());
        bool ko = s.chance(1, 4), rd = s.chance(1, 3), es = s.chance(1, 4);
        if (t.dirty && t.m.size() > 1) n.mixed++;
        chk_iter(A_ITER, "iterate", api::iter_create(t.tx), t.m, ko, rd ? t.tx : nullptr, es); break; }
      case O_TX_ROOT: { TxM &t = tx_any(); H32 g = api::tx_root(t.tx), e = ref_root(t.m); c.logf("  root %s", shx(g).c_str()); chk(A_ROOT, g == e, "transaction root %s instead of %s (%zu records)", shx(g).c_str(), shx(e).c_str(), t.m.size()); break; }
      case O_COMMIT: { if (txs.empty()) break; do_commit(s.below(txs.size())); break; }
      case O_ONE_INSERT: {
        H32 k = any_key(base); Bytes v = gen_value(s); c.logf("db insert %s = %zu bytes", kx(k).c_str(), v.size());
        api::R r = api::insert(db, k, v); chk(A_MAP, r.ok, "one-shot insert of %zu bytes fails with %s", v.size(), err_name(r.err));
        Map m = base; bool fresh = !m.count(k); m[k] = v; touched = {{k, fresh}}; did_commit(m); n.inserts++; break; }
      case O_ONE_REMOVE: {
        H32 k = any_key(base); bool e = base.count(k); c.logf("db remove %s%s", kx(k).c_str(), e ? "" : " (absent)");
        api::R r = api::remove(db, k); chk(A_MAP, !!r.ok == e, "one-shot remove(%s): %d (%s), the key is %s", kx(k).c_str(), r.ok, err_name(r.err), e ? "present" : "absent");
        if (!e) chk(A_MAP | A_ERR, r.err == URKEL_ENOTFOUND, "one-shot remove of an absent key gives %s", err_name(r.err));
        else { Map m = base; m.erase(k); touched = {{k, true}}; did_commit(m); n.removes++; } break; }
      case O_ONE_GET: { bool h = s.chance(1, 3); H32 r = h ? some_root() : H32{}; const Map &m = h ? hist[r] : base; H32 k = any_key(m); c.logf("db get %s%s", kx(k).c_str(), h ? (" at " + shx(r)).c_str() : ""); chk_get(h ? A_HIST | A_MAP : A_MAP, "urkel_get", api::get(db, k, h ? &r : nullptr), m, k); break; }
      case O_ONE_HAS: { bool h = s.chance(1, 3); H32 r = h ? some_root() : H32{}; const Map &m = h ? hist[r] : base; H32 k = any_key(m); c.logf("db has %s%s", kx(k).c_str(), h ? (" at " + shx(r)).c_str() : ""); chk_has(h ? A_HIST | A_MAP : A_MAP, "urkel_has", api::has(db, k, h ? &r : nullptr), m, k); break; }
      case O_ONE_PROVE: { bool h = s.chance(1, 3); H32 r = h ? some_root() : ref_root(base); const Map &m = h ? hist[r] : base; H32 k = any_key(m); c.logf("db prove %s%s", kx(k).c_str(), h ? (" at " + shx(r)).c_str() : ""); chk_proof(h ? A_HIST | A_PROOF : A_PROOF, "urkel_prove", api::prove(db, k, h ? &r : nullptr), m, k, r); break; }
      case O_ONE_ITER: { bool h = s.chance(1, 3); H32 r = h ? some_root() : H32{}; const Map &m = h ? hist[r] : base; c.logf("db iterate%s", h ? (" at " + shx(r)).c_str() : ""); chk_iter(h ? A_HIST | A_ITER : A_ITER, "urkel_iterate", api::iterate(db, h ? &r : nullptr), m, s.chance(1, 4), nullptr, s.chance(1, 4)); break; }
      case O_DB_ROOT: { H32 g = api::root(db), e = ref_root(base); c.logf("db root %s", shx(g).c_str()); chk(A_ROOT, g == e, "database root %s instead of %s", shx(g).c_str(), shx(e).c_str()); break; }
      case O_INJECT: {
        H32 r = some_root(); c.logf("db inject %s", shx(r).c_str()); api::R x = api::inject(db, r);
        chk(A_REVERT | A_HIST, x.ok, "reverting to the committed root %s fails with %s", shx(r).c_str(), err_name(x.err));
        base = hist[r]; n.reverts++; break; }
      case O_REOPEN: c.logf("reopen"); reopen(); break;
      case O_BURST: { TxM &t = tx_any(); size_t k = 2 + s.small(30); for (size_t i = 0; i < k; i++) { Span q(s); if (s.chance(1, 5)) do_remove(t, any_key(t.m)); else do_insert(t, some_key(t.m, false), gen_value(s)); } break; }
      case O_REMOVE_ALL: { TxM &t = tx_any(); c.logf("  remove all but a few"); size_t left = s.below(3); while (t.m.size() > left) { H32 k = some_key(t.m, true); do_remove(t, k); } break; }
      case O_FULL: { TxM &t = tx_any(); c.logf("  compare everything"); full_tx(0, "view", t.tx, t.m); break; }
      case O_BAD: {
        n.bads++;
        switch (s.below(3)) {
          case 0: { TxM &t = tx_any(); size_t k = VALUE_MAX + 1 + s.small(5000); c.logf("  insert of %zu bytes", k); Bytes v(k, 'x'); api::R r = api::tx_insert(t.tx, keys[0], v); chk(A_ERR | A_MAP, !r.ok && r.err == URKEL_EINVAL, "insert of %zu bytes: %d, %s", k, r.ok, err_name(r.err)); break; }
          case 1: { H32 u = rnd_key(s.seed() + 0x5555); int e; c.logf("  unknown root %s", shx(u).c_str()); urkel_tx_t *t = api::tx_create(db, &u, &e); chk(A_ERR | A_HIST, !t && e == URKEL_ENOTFOUND, "a transaction at a root that was never committed: %p, %s", (void *)t, err_name(e)); break; }
          default: { H32 u = rnd_key(s.seed() + 0x7777); c.logf("  inject of unknown root %s", shx(u).c_str()); api::R r = api::inject(db, u); chk(A_ERR | A_HIST | A_REVERT, !r.ok && r.err == URKEL_ENOTFOUND, "reverting to a root that was never committed: %d, %s", r.ok, err_name(r.err)); break; }
        }
        break; }
      case O_N: break;
    }
    static const char *const names[O_N] = {"begin", "begin at root", "destroy tx", "clear tx", "rebase tx", "insert", "update", "insert same", "remove", "remove absent", "get", "has", "prove", "iterate", "tx root", "commit", "db insert", "db remove", "db get", "db has", "db prove", "db iterate", "db root", "revert", "reopen", "burst", "remove all", "compare", "bad call"};
    c.st.labels[std::string("op ") + names[op]]++;
    if (after) after(names[op]);
  }
};

// Runs a body; a deviation that this check does not judge ends the case.
template <class F> inline void judged(Ctx &c, F f) {
  try { f(); } catch (Skip &k) { c.label("ended unjudged (another property's matter)"); }
}
