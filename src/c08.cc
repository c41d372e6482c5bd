#include "world.hh"
#include "util.hh"

// Several transactions side by side. After every step that could leak into
// another view, views are compared with what their own history says.
static void world_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_ISO | A_ROOT | A_MAP | A_ITER | A_HIST | A_REOPEN); w.limits();
    w.keys = gen_keys(s, 30);
    w.open();
    w.max_txs = 6;
    w.w[O_TX_OPEN] = 10; w.w[O_TX_AT] = 5; w.w[O_COMMIT] = 14; w.w[O_TX_CLEAR] = 5; w.w[O_TX_DESTROY] = 4; w.w[O_TX_INJECT] = 3; w.w[O_BURST] = 8; w.w[O_INJECT] = 1; w.w[O_REOPEN] = 1; w.w[O_ONE_INSERT] = 4; w.w[O_ONE_REMOVE] = 3; w.w[O_REMOVE_ALL] = 2;
    uint64_t views = 0, commits_beside = 0;
    auto one = [&](urkel_tx_t *tx, const Map &m, const char *whose, const char *op) {
      H32 g = api::tx_root(tx), e = ref_root(m);
      w.chk(A_ISO, g == e, "after '%s', %s has root %s instead of %s (%zu records)", op, whose, shx(g).c_str(), shx(e).c_str(), m.size());
      for (auto &k : w.keys) w.chk_get(A_ISO, whose, api::tx_get(tx, k), m, k);
      views++;
    };
    w.after = [&](const char *op) {
      bool big = !strcmp(op, "commit") || !strncmp(op, "db insert", 9) || !strncmp(op, "db remove", 9) || !strcmp(op, "clear tx") || !strcmp(op, "destroy tx") || !strcmp(op, "revert");
      if (big) {
        if (w.txs.size() > 1 && !strcmp(op, "commit")) commits_beside++;
        H32 g = api::root(w.db), e = ref_root(w.base);
        w.chk(A_ISO, g == e, "after '%s' the database root is %s instead of %s", op, shx(g).c_str(), shx(e).c_str());
        for (size_t i = 0; i < w.txs.size(); i++) one(w.txs[i].tx, w.txs[i].m, "another transaction", op);
        urkel_tx_t *t = api::tx_create(w.db); w.chk(A_ISO, t, "cannot create a transaction"); one(t, w.base, "a fresh transaction", op); api::tx_destroy(t);
      } else if (w.txs.size() && s.chance(1, 6)) { size_t i = s.below(w.txs.size()); one(w.txs[i].tx, w.txs[i].m, "a transaction", op); }
      else if (s.chance(1, 8)) { const H32 &k = w.keys[s.below(w.keys.size())]; w.chk_get(A_ISO, "urkel_get while changes are buffered", api::get(w.db, k), w.base, k); }
    };
    size_t steps = 10 + s.below(c.thorough ? 100 : 60);
    for (size_t i = 0; i < steps; i++) w.step();
    for (auto &h : w.hist) { urkel_tx_t *t = api::tx_create(w.db, &h.first); w.chk(A_ISO, t, "root refused"); one(t, h.second, "a snapshot", "end"); api::tx_destroy(t); }
    // nothing of what was not committed survives
    w.reopen();
    urkel_tx_t *t = api::tx_create(w.db); w.chk(A_ISO, t, "cannot create a transaction"); one(t, w.base, "the reopened database", "reopen"); api::tx_destroy(t);
    w.chk_iter(A_ISO, "iterate the reopened database", api::iterate(w.db), w.base);
    c.nontrivial = commits_beside >= 2; c.label("views compared", views); c.label("commits beside other transactions", commits_beside);
    w.close();
  });
}

// A reader that holds an iterator or a snapshot while others come and go, and
// transactions dropped without a trace: the files do not change either.
static void drop_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_ISO | A_ROOT | A_MAP | A_ITER | A_HIST | A_REOPEN); w.limits();
    w.keys = gen_keys(s, 30);
    w.open();
    unsigned rounds = 1 + s.below(6); uint64_t drops = 0;
    for (unsigned r = 0; r < rounds; r++) {
      Span sp(s);
      w.tx_open(); size_t i = w.txs.size() - 1;
      Changes cs; { Map m = w.base; cs = gen_changes(s, w.keys, m, 30); }
      Files before = db_files(w.path);
      H32 root = api::root(w.db);
      for (auto &x : cs) if (x.del) w.do_remove(w.txs[i], x.key); else w.do_insert(w.txs[i], x.key, x.v);
      if (s.chance(1, 2)) { api::tx_root(w.txs[i].tx); for (auto &x : cs) { w.chk_proof(A_ISO, "prove", api::tx_prove(w.txs[i].tx, x.key), w.txs[i].m, x.key, ref_root(w.txs[i].m)); } }
      std::string d = files_diff(before, db_files(w.path));
      w.chk(A_ISO, d.empty(), "buffering changes touched the files: %s", d.c_str());
      H32 g = api::root(w.db); w.chk(A_ISO, g == root, "buffering changes moved the database root");
      unsigned end = s.below(4);
      if (end == 0) { c.logf("commit"); w.do_commit(i); api::tx_destroy(w.txs[i].tx); w.txs.pop_back(); }
      else {
        if (end == 1) { c.logf("clear and destroy"); api::tx_clear(w.txs[i].tx); w.txs[i].m = w.base; w.full_tx(A_ISO, "a cleared transaction", w.txs[i].tx, w.txs[i].m); }
        else if (end == 2 && w.order.size()) { H32 h = w.some_root(); c.logf("re-base and destroy"); w.chk(A_ISO, api::tx_inject(w.txs[i].tx, h).ok, "re-base"); }
        else c.logf("destroy");
        api::tx_destroy(w.txs[i].tx); w.txs.pop_back(); drops++;
        d = files_diff(before, db_files(w.path));
        w.chk(A_ISO, d.empty(), "dropping a transaction touched the files: %s", d.c_str());
        g = api::root(w.db); w.chk(A_ISO, g == root, "dropping a transaction moved the database root");
      }
      for (auto &k : w.keys) w.chk_get(A_ISO, "urkel_get", api::get(w.db, k), w.base, k);
      if (s.chance(1, 3)) { c.logf("reopen"); w.reopen(); for (auto &k : w.keys) w.chk_get(A_ISO, "urkel_get after reopening", api::get(w.db, k), w.base, k); }
    }
    c.nontrivial = drops >= 1 && w.n.commits >= 1; c.label("transactions dropped", drops);
    w.close();
  });
}
const Prop the_prop = {"C08", "world: at least two commits while other transactions were open (all views compared after each); drop: at least one transaction dropped with a commit elsewhere",
  {{"world", world_stage, 15000, 1250000, 8}, {"drop", drop_stage, 15000, 1250000, 8}}};
