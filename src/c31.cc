// What is stored as a value, or comes from another database, never passes for a commit.
#include "world.hh"
#include "format.hh"
#include "limits.hh"

namespace {
struct D {
  std::string p; urkel_t *db = nullptr; Map m; std::vector<Map> commits;
  ~D() { if (db) api::close(db); }
  void open() { int e; db = api::open(p, &e); if (!db) throw Skip{"open"}; }
  void shut() { api::close(db); db = nullptr; }
  void commit(const Changes &ch) { urkel_tx_t *t = api::tx_create(db); if (!t) throw Skip{"begin"}; for (auto &x : ch) { bool ok = x.del ? api::tx_remove(t, x.key).ok : api::tx_insert(t, x.key, x.v).ok; if (!ok) throw Skip{"change"}; if (x.del) m.erase(x.key); else m[x.key] = x.v; } if (!api::tx_commit(t).ok) throw Skip{"commit"}; api::tx_destroy(t); commits.push_back(m); }
};
uint64_t base_seed;
// As the machine's source of randomness; the clock stays as it is.
void entropy(uint64_t k) { rand_seed = base_seed + 100000 * k; }

Bytes last_file(const std::string &dir, std::string &name) { Bytes b; for (auto &f : dir_files(dir)) if (is_data_name(f.first) && f.first >= name) { name = f.first; b = f.second; } return b; }

// Everything that can be made without having read the database's key.
struct Forger {
  Src &s; const fmt::Reader &own, &other; Bytes key, okey;
  Bytes some(std::string &how) {
    // pointers: the real ones, which anybody can work out, or those of the other database
    const fmt::Reader &r = s.chance(2, 3) ? own : other; fmt::Seal t = r.seals[s.below(r.seals.size())]; fmt::Ptr prev = t.prev, root = t.root;
    switch (s.below(6)) {
      case 0: prev.index = t.index; prev.pos = t.pos; break;      // on top of it
      case 1: root = fmt::Ptr(); break;                             // an empty tree
      case 2: prev = fmt::Ptr(); break; }
    Bytes k; unsigned q = s.below(12);
    switch (q) {
      case 0: case 1: { how = "a commit record of another database"; const fmt::Seal &u = other.seals[s.below(other.seals.size())]; return other.data.at(u.index).substr(u.pos, fmt::SEAL); }
      case 2: how = "signed with the other database's key"; k = okey; break;
      case 3: how = "signed with a key of zeros"; k = Bytes(32, 0); break;
      case 4: how = "signed with a key of ones"; k = Bytes(32, (char)255); break;
      case 5: how = "signed without a key"; k = ""; break;
      case 6: how = "signed with the file name"; k = "meta"; break;
      case 7: { how = "signed with a key that has one bit wrong"; k = key; unsigned b = s.below(256); k[b / 8] ^= 1 << b % 8; break; }
      case 8: { how = "signed with a part of the key"; k = key; size_t n = s.pickl({1, 4, 8, 16, 20, 24, 31}); for (size_t i = n; i < 32; i++) k[i] = okey[i]; if (k == key) k[31] ^= 1; break; }
      case 9: { how = "without a checksum"; Bytes d = fmt::seal_bytes(prev, root, okey); for (size_t i = 18; i < 38; i++) d[i] = s.chance(1, 2) ? 0 : d[i % 18]; Bytes z = d; std::fill(z.begin() + 18, z.end(), s.chance(1, 2) ? 0 : (char)255); return z; }
      case 10: { how = "with one bit of the checksum wrong"; Bytes d = fmt::seal_bytes(prev, root, key); unsigned b = s.below(160); d[18 + b / 8] ^= 1 << b % 8; return d; }
      default: { how = "with a plain hash"; Bytes d = fmt::seal_bytes(prev, root, ""); uint8_t h[64]; ref_blake2b(h, 32, nullptr, 0, d.data(), 18); return d.substr(0, 18) + Bytes((char *)h, 20); } }
    return fmt::seal_bytes(prev, root, k);
  }
};

void forge(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; Limits lim; if (s.chance(1, 3)) gen_limits(c, 1, 2);
    base_seed = s.seed(); Keys ks = gen_keys(s, 24); D a, b; a.p = c.dir + "/a"; b.p = c.dir + "/b";
    entropy(1); a.open(); entropy(2); b.open();
    // the same history in both, or nearly: pointers agree
    size_t n = 1 + s.below(5); bool same = s.chance(3, 4);
    for (size_t i = 0; i < n; i++) { Changes ch = gen_changes(s, ks, a.m, 12, 5); a.commit(ch); if (!same) ch = gen_changes(s, ks, b.m, 12, 5); b.commit(ch); }
    a.shut(); b.shut();
    Files fa = dir_files(a.p), fb = dir_files(b.p); Bytes key = fa["meta"], okey = fb["meta"];
    REQUIRE(key.size() == 32 && okey.size() == 32, "the key of a database has %zu bytes", key.size());
    REQUIRE(key != okey, "two databases have the same key for their commit records");
    fmt::Reader ra(fa), rb(fb); if (ra.seals.size() != n || rb.seals.size() != n) throw Skip{"history"};
    Forger f{s, ra, rb, key, okey};
    for (unsigned round = 0, rn = 1 + s.below(4); round < rn; round++) {
      Span sp(s); std::string how, name; Bytes whole = last_file(a.p, name); size_t end = whole.size(); Map want = a.commits.back();
      Bytes forged; for (size_t i = 0, k = 1 + s.below(3); i < k; i++) forged += f.some(how);
      size_t pad = s.chance(3, 4) ? (38 - end % 38) % 38 : s.below(38);
      if (s.chance(2, 3)) {
        // stored as a value; the commit's own record does not make it to the disk
        Bytes v(pad, (char)s.below(256)); v += forged; if (s.chance(1, 2)) while (v.size() + forged.size() <= VALUE_MAX) v += forged; if (v.size() > VALUE_MAX) v.resize(VALUE_MAX);
        if (s.chance(1, 2)) v += Bytes(s.below(VALUE_MAX - v.size() + 1), 'x');
        a.open(); if (!api::insert(a.db, ks[s.below(ks.size())], v).ok) throw Skip{"insert"}; a.shut();
        std::string nn = name; Bytes now = last_file(a.p, nn);
        if (nn != name) { // in the next file
          if (s.chance(1, 2)) { Bytes old; read_file(a.p + "/" + name, old); (void)old; } end = 0; }
        size_t lo = end, hi = now.size() - 38, at; // the new record is the last 38 bytes
        if (now.size() < 38 || hi < lo) throw Skip{"layout"};
        size_t vp = now.find(forged, end ? end - 1 : 0); size_t aligned = vp == Bytes::npos ? hi : std::min(hi, vp + 38 * (1 + s.below(3)));
        at = s.chance(1, 2) ? aligned : lo + s.below(hi + 37 - lo + 1); // also in the middle of the record
        if (vp != Bytes::npos && vp % 38 == 0 && at >= vp + 38) c.label("a forged record where a record may be");
        write_file(a.p + "/" + nn, now.substr(0, at));
        c.logf("a value holds a record %s at %zu of %s; the file ends at %zu of %zu", how.c_str(), vp, nn.c_str(), at, now.size());
      } else {
        Bytes t = whole + Bytes(pad, 0) + forged; if (s.chance(1, 3)) t += Bytes(s.below(100), (char)s.below(256));
        if (s.chance(1, 6)) { // a file of its own
          char nx[16]; snprintf(nx, sizeof nx, "%010u", (unsigned)strtoul(name.c_str(), 0, 10) + 1); write_file(a.p + "/" + nx, forged); c.logf("a record %s in a new file", how.c_str());
        } else { write_file(a.p + "/" + name, t); c.logf("a record %s at the end", how.c_str()); }
        if (pad == (38 - end % 38) % 38) c.label("a forged record where a record may be");
      }
      c.label("record " + how); c.st.sub++;
      a.open(); H32 g = api::root(a.db), e = ref_root(want);
      REQUIRE(g == e, "after an unfinished write that contains a commit record %s, the database opens at the root %s instead of %s, the last commit (of %zu)", how.c_str(), shx(g).c_str(), shx(e).c_str(), a.commits.size());
      for (auto &kv : want) { auto r = api::get(a.db, kv.first); REQUIRE(r.ok && r.v == kv.second, "a record of the last commit is lost (%s)", err_name(r.err)); }
      // forged roots are unknown
      H32 fr; memcpy(fr.data(), forged.data(), 32); REQUIRE(!api::has(a.db, ks[0], &fr).ok, "a root that was never committed is known");
      for (auto &m : a.commits) { H32 r = ref_root(m); urkel_tx_t *t = api::tx_create(a.db, &r); REQUIRE(t, "an older commit is lost"); api::tx_destroy(t); }
      if (s.chance(1, 2)) { a.m = a.commits.back(); Changes ch = gen_changes(s, ks, a.m, 6, 3); a.commit(ch); }
      a.shut();
    }
    c.nontrivial = true;
  });
}

// Each database has a key of its own, all of it random.
void keys(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s; base_seed = s.seed(); std::vector<Bytes> k; size_t n = 12; bool again = s.chance(1, 2);
    for (size_t i = 0; i < n; i++) {
      entropy(i); D d; d.p = c.dir + (again ? "/db" : "/db" + std::to_string(i)); d.open(); if (s.chance(1, 2)) d.commit({}); d.shut();
      Bytes m; REQUIRE(read_file(d.p + "/meta", m) && m.size() == 32, "the key of a database has %zu bytes", m.size()); k.push_back(m);
      // it stays
      d.open(); d.shut(); Bytes m2; read_file(d.p + "/meta", m2); REQUIRE(m == m2, "opening a database changes its key");
      if (again) { api::R r = api::destroy(d.p); if (!r.ok) throw Skip{"destroy"}; }
    }

    for (size_t p = 0; p < 32; p++) { bool all = true; for (auto &x : k) all &= x[p] == k[0][p]; REQUIRE(!all, "byte %zu of the key is the same in %zu databases", p, n); }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) REQUIRE(k[i] != k[j], "two databases have the same key for their commit records");
    c.st.sub += n; c.nontrivial = true;
  });
}
} // namespace
extern const Prop the_prop = {"C31", "forge: a database with commits and a forged record behind the last; keys: twelve databases", {{"forge", forge, 12000, 500000, 8}, {"keys", keys, 200, 4000, 8}}};
