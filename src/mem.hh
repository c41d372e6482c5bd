// Sequences of every kind of call, with failures, that end with everything
// released: then nothing that the library acquired may be left.
#pragma once
#include "proofmut.hh"
#include "script.hh"

namespace mem {
static struct Faults { bool on; unsigned den; uint64_t rng; int soft; uint64_t fired; } F;
static Action policy(const Call &c) {
  if (!F.on || !F.den) return {Action::PASS, 0, 0};
  if (!strcmp(c.file, "@rand") || !strcmp(c.file, "urandom") || c.sc == S_MUNMAP) return {Action::PASS, 0, 0};
  F.rng = mix64(F.rng + 0x9e3779b97f4a7c15ULL);
  if (F.rng % F.den) return {Action::PASS, 0, 0};
  uint64_t k = F.rng >> 20;
  bool io = c.sc == S_READ || c.sc == S_PREAD || c.sc == S_WRITE || c.sc == S_PWRITE;
  if (k % 4 == 0 && io) { if (F.soft-- <= 0) return {Action::PASS, 0, 0}; F.fired++; return {Action::PARTIAL, 0, (size_t)((k >> 8) % (c.len ? c.len : 1)) + 1}; }
  static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES, ENOMEM, EINTR, EAGAIN, ENFILE, EPERM};
  int e = errs[(k >> 4) % 9];
  if ((e == EINTR || e == EAGAIN) && F.soft-- <= 0) e = EIO;
  F.fired++;
  return {Action::ERR, e, 0};
}

struct Tx { urkel_tx_t *h; int iters; };
struct It { urkel_iter_t *h; int tx; };
struct Db { std::string path; urkel_t *h = nullptr; bool reverted = false; int refused = 0; std::vector<Tx> txs; std::vector<It> its; std::vector<H32> roots; };

struct Driver {
  Ctx &c; Src &s; Keys keys; std::vector<Db> dbs; std::vector<Bytes> proofs; std::vector<Map> no_maps; bool exact;
  uint64_t n_fail = 0, n_open = 0, n_commit = 0, n_iter_early = 0, n_refused = 0, n_damage = 0;
  Driver(Ctx &c_, bool exact_) : c(c_), s(c_.s), exact(exact_) {}

  size_t blocks() { return exact ? lib_blocks() : 0; }
  // A call that returns no handle leaves nothing behind.
  struct Level { Driver &d; size_t b; int f, m; Level(Driver &d_) : d(d_), b(d_.blocks()), f(lib_fds()), m(lib_maps()) {}
    void same(const char *what) { REQUIRE(d.blocks() == b, "%s leaves %zd allocations behind (sizes among%s)", what, (ssize_t)(d.blocks() - b), lib_blocks_sizes().c_str()); REQUIRE(lib_fds() == f, "%s leaves %d file descriptors open", what, lib_fds() - f); REQUIRE(lib_maps() == m, "%s leaves %d mappings", what, lib_maps() - m); } };
  H32 root_arg(Db &d) { if (d.roots.empty() || s.chance(1, 6)) return s.chance(1, 2) ? H32{} : rnd_key(s.seed() + 0x3333); return d.roots[s.below(d.roots.size())]; }
  void note(bool ok) { if (!ok) n_fail++; }

  void damage(Db &d, bool open) {
    Files f = db_files(d.path); std::vector<std::string> nm; for (auto &x : f) if (x.first.back() != '/') nm.push_back(x.first);
    if (nm.empty()) return;
    std::string n = nm[s.below(nm.size())], p = d.path + "/" + n; Bytes &b = f[n];
    if (open && n == "meta") return;
    n_damage++;
    switch (s.below(open ? 2 : 4)) {
      case 0: unlink(p.c_str()); c.logf("  %s removed", n.c_str()); break;
      case 1: { size_t k = b.size() ? s.below(b.size()) : 0; Bytes t = b.substr(0, k); unlink(p.c_str()); write_file(p, t); c.logf("  %s cut to %zu of %zu bytes", n.c_str(), k, b.size()); break; }
      case 2: { Bytes t = b; Bytes x(1 + s.below(200), 0); Rng g(s.seed()); g.fill(&x[0], x.size()); if (n == "meta") { if (t.size()) t[s.below(t.size())] ^= 1 << s.below(8); } else t += x; unlink(p.c_str()); write_file(p, t); c.logf("  %s garbled", n.c_str()); break; }
      default: { Bytes z; write_file(d.path + "/" + data_name(1 + s.below(6)), z); c.logf("  an empty data file"); break; }
    }
  }
  void drop_iter(Db &d, size_t i) { if (d.its[i].tx >= 0) d.txs[d.its[i].tx].iters--; api::iter_destroy(d.its[i].h); d.its.erase(d.its.begin() + i); }
  void drop_tx(Db &d, size_t i) { api::tx_destroy(d.txs[i].h); d.txs.erase(d.txs.begin() + i); for (auto &t : d.its) if (t.tx > (int)i) t.tx--; }
  void close(Db &d) {
    while (d.its.size()) drop_iter(d, s.below(d.its.size()));
    while (d.txs.size()) drop_tx(d, s.below(d.txs.size()));
    if (d.h) { c.logf("close"); api::close(d.h); }
    d.h = nullptr; d.reverted = false;
  }
  void step() {
    Span sp(s);
    size_t di = s.below(dbs.size()); Db &d = dbs[di];
    if (F.on ? s.chance(1, 3) : s.chance(1, 10)) { F.on = !F.on; }
    if (s.chance(1, 12)) { verify_some(d); return; }
    if (!d.h) {
      if (d.refused > 2 && s.chance(1, 2)) { rm_tree(d.path); d.roots.clear(); d.refused = 0; c.logf("db%zu deleted from outside", di); return; }
      switch (s.below(16)) {
        case 0: { Level l(*this); api::R r = api::destroy(d.path); note(r.ok); c.logf("destroy: %s", r.ok ? "ok" : err_name(r.err)); if (r.ok) d.roots.clear(); l.same("urkel_destroy"); break; }
        case 1: damage(d, false); break;
        case 2: { Level l(*this); int e; std::string bad = s.chance(1, 2) ? d.path + "/x/y" : std::string(1000 + s.below(60), 'p'); urkel_t *t = api::open(bad, &e); if (t) { api::close(t); break; } note(false); l.same("a refused urkel_open"); break; }
        default: {
          Level l(*this); int e; d.h = api::open(d.path, &e); note(d.h); n_open++;
          c.logf("db%zu open: %s", di, d.h ? "ok" : err_name(e));
          if (d.h) d.refused = 0; else { d.refused++; n_refused++; l.same("a failed urkel_open"); }
          break; }
      }
      return;
    }
    bool locked = !d.its.empty();
    auto free_tx = [&]() -> int { std::vector<int> v; for (size_t i = 0; i < d.txs.size(); i++) if (!d.txs[i].iters) v.push_back(i); return v.empty() ? -1 : v[s.below(v.size())]; };
    int any = d.txs.empty() ? -1 : (int)s.below(d.txs.size());
    static const unsigned w[] = {6, 3, 14, 7, 8, 4, 4, 4, 10, 4, 4, 8, 6, 6, 3, 3, 3, 3, 3, 3, 3, 2, 4, 1, 3};
    unsigned op = s.weighted(w, 25);
    H32 k = s.chance(1, 6) ? gen_near(s, keys) : keys[s.below(keys.size())];
    const char *nm = "?"; int ok = 1, err = 0;
    switch (op) {
      case 0: { nm = "begin"; if (d.txs.size() >= 4) break; bool r = !locked && s.chance(1, 3); if (locked && d.reverted) break; H32 h = root_arg(d); urkel_tx_t *t = api::tx_create(d.h, r ? &h : nullptr, &err); ok = t != nullptr; if (t) d.txs.push_back({t, 0}); break; }
      case 1: { nm = "tx destroy"; int i = free_tx(); if (i >= 0) drop_tx(d, i); break; }
      case 2: { nm = "insert"; int i = free_tx(); if (i < 0) break; Bytes v = s.chance(1, 20) ? Bytes(VALUE_MAX + 1 + s.below(3000), 'o') : gen_value(s); api::R r = api::tx_insert(d.txs[i].h, k, v); ok = r.ok; err = r.err; break; }
      case 3: { nm = "remove"; int i = free_tx(); if (i < 0) break; api::R r = api::tx_remove(d.txs[i].h, k); ok = r.ok; err = r.err; break; }
      case 4: { nm = "get"; if (any < 0) break; auto r = api::tx_get(d.txs[any].h, k); ok = r.ok; err = r.err; break; }
      case 5: { nm = "has"; if (any < 0) break; auto r = api::tx_has(d.txs[any].h, k); ok = r.ok; err = r.err; break; }
      case 6: { nm = "prove"; int i = free_tx(); if (i < 0) break; auto r = api::tx_prove(d.txs[i].h, k); ok = r.ok; err = r.err; if (ok && proofs.size() < 12) proofs.push_back(r.v); break; }
      case 7: { nm = "root"; int i = free_tx(); if (i < 0) break; api::tx_root(d.txs[i].h); break; }
      case 8: { nm = "commit"; int i = free_tx(); if (i < 0 || locked) break; auto r = api::tx_commit(d.txs[i].h); ok = r.ok; err = r.err; n_commit += r.ok; if (r.ok && d.roots.size() < 40) d.roots.push_back(api::root(d.h)); break; }
      case 9: { nm = "iterate"; if (any < 0 || d.its.size() >= 3) break; d.its.push_back({api::iter_create(d.txs[any].h), any}); d.txs[any].iters++; break; }
      case 10: { nm = "db iterate"; if (d.its.size() >= 3 || (locked && d.reverted)) break; bool r = !locked && s.chance(1, 3); H32 h = root_arg(d); urkel_iter_t *t = api::iterate(d.h, r ? &h : nullptr, &err); ok = t != nullptr; if (t) d.its.push_back({t, -1}); break; }
      case 11: { nm = "next"; if (d.its.empty()) break; It &t = d.its[s.below(d.its.size())]; size_t n = 1 + s.below(12); for (size_t i = 0; i < n; i++) { auto r = api::iter_next(t.h, s.chance(1, 4)); ok = r.ok; err = r.err; } break; }
      case 12: case 13: { nm = "end iteration"; if (d.its.empty()) break; n_iter_early++; drop_iter(d, s.below(d.its.size())); break; }
      case 14: { nm = "clear"; int i = free_tx(); if (i < 0 || locked) break; api::tx_clear(d.txs[i].h); break; }
      case 15: { nm = "rebase"; int i = free_tx(); if (i < 0 || locked) break; auto r = api::tx_inject(d.txs[i].h, root_arg(d)); ok = r.ok; err = r.err; break; }
      case 16: { nm = "db insert"; if (locked) break; auto r = api::insert(d.h, k, s.chance(1, 10) ? Bytes(VALUE_MAX + 1, 'o') : gen_value(s)); ok = r.ok; err = r.err; break; }
      case 17: { nm = "db remove"; if (locked) break; auto r = api::remove(d.h, k); ok = r.ok; err = r.err; break; }
      case 18: { nm = "db get"; if (locked && d.reverted) break; bool r = !locked && s.chance(1, 3); H32 h = root_arg(d); auto g = api::get(d.h, k, r ? &h : nullptr); ok = g.ok; err = g.err; break; }
      case 19: { nm = "db has"; if (locked && d.reverted) break; bool r = !locked && s.chance(1, 3); H32 h = root_arg(d); auto g = api::has(d.h, k, r ? &h : nullptr); ok = g.ok; err = g.err; break; }
      case 20: { nm = "db prove"; if (locked && d.reverted) break; bool r = !locked && s.chance(1, 3); H32 h = root_arg(d); auto g = api::prove(d.h, k, r ? &h : nullptr); ok = g.ok; err = g.err; if (ok && proofs.size() < 12) proofs.push_back(g.v); break; }
      case 21: { nm = "revert"; if (locked) break; auto r = api::inject(d.h, root_arg(d)); ok = r.ok; err = r.err; if (r.ok) d.reverted = true; break; }
      case 22: { nm = "burst"; int i = free_tx(); if (i < 0) break; size_t n = 2 + s.below(25); for (size_t j = 0; j < n; j++) { Span q(s); H32 x = keys[s.below(keys.size())]; if (s.chance(1, 4)) api::tx_remove(d.txs[i].h, x); else api::tx_insert(d.txs[i].h, x, gen_value(s)); } break; }
      case 23: nm = "damage"; damage(d, true); break;
      default: close(d); return;
    }
    note(ok);
    c.logf("db%zu %s%s%s", di, nm, ok ? "" : ": ", ok ? "" : err_name(err));
    c.st.labels[std::string("call ") + nm]++;
  }
  void verify_some(Db &d) {
    Level l(*this);
    for (size_t i = 0, n = 1 + s.below(6); i < n; i++) {
      Span sp(s);
      Bytes p;
      if (proofs.empty() || s.chance(1, 6)) { p.assign(s.small(1200), 0); if (p.size()) { Rng g(s.seed()); g.fill(&p[0], p.size()); p[0] = s.below(256); if (p.size() > 4) { p[1] = s.below(2) << 6 | s.below(4) << 6; p[2] = s.below(4); p[3] = 0; } } }
      else p = proofs[s.below(proofs.size())];
      switch (s.below(6)) {
        case 0: if (p.size()) p.resize(s.below(p.size())); break;
        case 1: case 2: if (p.size()) p[s.below(p.size())] ^= 1 << s.below(8); break;
        case 3: { Bytes x(1 + s.below(40), (char)s.below(256)); p.insert(s.below(p.size() + 1), x); break; }
        case 4: if (p.size() > 3) { p[1] = (char)((uint8_t)p[1] & 0x3f) | (char)(s.below(4) << 6); } break;
        default: break;
      }
      H32 k = keys[s.below(keys.size())], r = root_arg(d);
      api::V v = api::verify(p, k, r); note(v.ok);
      api::hash(p.data(), p.size());
    }
    c.logf("proofs verified");
    l.same("urkel_verify");
  }
  // Some data, without failures.
  void warm_up(Db &d) {
    int e; d.h = api::open(d.path, &e); if (!d.h) return;
    n_open++;
    for (size_t i = 0, n = 1 + s.below(3); i < n; i++) {
      Span sp(s);
      urkel_tx_t *t = api::tx_create(d.h); if (!t) return;
      for (size_t j = 0, m = 1 + s.below(20); j < m; j++) { Span q(s); H32 x = keys[s.below(keys.size())]; if (s.chance(1, 5)) api::tx_remove(t, x); else api::tx_insert(t, x, gen_value(s)); }
      if (api::tx_commit(t).ok) { n_commit++; d.roots.push_back(api::root(d.h)); }
      api::tx_destroy(t);
    }
    c.logf("warmed up: %zu commits", d.roots.size());
    if (s.chance(1, 2)) { api::close(d.h); d.h = nullptr; }
  }
  void run(size_t steps, size_t ndb) {
    keys = gen_keys(s, exact ? 24 : 10);
    for (size_t i = 0; i < ndb; i++) { Db d; d.path = c.dir + sfmt("/db%zu", i); dbs.push_back(d); }
    F.on = false; F.den = s.pickl({0, 0, 300, 60, 15, 4}); F.rng = s.seed(); F.soft = 30; F.fired = 0;
    sys_policy = policy;
    if (exact) { track_memory = true; lib_accounting_reset(); }
    struct Off { ~Off() { track_memory = false; sys_policy = nullptr; F.on = false; } } off;
    int f0 = lib_fds(), m0 = lib_maps();
    try {
      if (s.chance(5, 6)) for (Db &d : dbs) warm_up(d);
      for (size_t i = 0; i < steps; i++) step();
      if (s.chance(2, 3)) F.on = false;
      for (auto &d : dbs) close(d);
    } catch (Failure &f) {
      if (f.msg.find("leaves") != std::string::npos) throw; // Level's verdict; the rest is judged elsewhere
      c.logf("not judged here: %s", f.msg.c_str()); c.label("ended unjudged (another property's matter)"); return;
    }
    REQUIRE(blocks() == 0, "everything is released, but %zu allocations remain (sizes%s)", blocks(), lib_blocks_sizes().c_str());
    REQUIRE(lib_fds() == f0, "everything is released, but %d file descriptors remain", lib_fds() - f0);
    REQUIRE(lib_maps() == m0, "everything is released, but %d mappings remain", lib_maps() - m0);
    c.label("failing calls", n_fail); c.label("injected faults", F.fired); c.label("refused opens", n_refused); c.label("commits", n_commit); c.label("damaged files", n_damage);
    c.nontrivial = n_fail > 0 && n_open > 0 && n_commit > 0;
  }
};
} // namespace mem
