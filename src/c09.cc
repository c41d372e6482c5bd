#include "world.hh"
#include "util.hh"

static void reopen_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_REOPEN | A_ROOT | A_MAP | A_ITER | A_HIST); w.limits();
    w.keys = gen_keys(s, s.chance(1, 8) ? 200 : 40);
    w.open();
    w.w[O_COMMIT] = 12; w.w[O_REOPEN] = 0; w.w[O_BURST] = 8; w.w[O_INJECT] = 2; w.w[O_PROVE] = w.w[O_ITER] = w.w[O_ONE_PROVE] = w.w[O_ONE_ITER] = 1;
    w.max_txs = 3;
    unsigned rounds = 1 + s.below(5); uint64_t withbuf = 0;
    for (unsigned r = 0; r < rounds; r++) {
      Span sp(s);
      size_t steps = s.small(30);
      for (size_t i = 0; i < steps; i++) w.step();
      for (auto &t : w.txs) if (t.dirty) withbuf++;
      w.close(); w.base = w.committed;
      Files f = db_files(w.path);
      unsigned times = 1 + s.below(3);
      for (unsigned k = 0; k < times; k++) {
        c.logf("open again (%zu records)", w.base.size());
        w.open(A_REOPEN); w.n.reopens++;
        H32 g = api::root(w.db), e = ref_root(w.base);
        w.chk(A_REOPEN, g == e, "after reopening, the root is %s instead of %s (%zu records)", shx(g).c_str(), shx(e).c_str(), w.base.size());
        std::string d = files_diff(f, db_files(w.path));
        w.chk(A_REOPEN, d.empty(), "opening changed the database: %s", d.c_str());
        if (s.chance(2, 3)) { urkel_tx_t *t = api::tx_create(w.db); w.chk(A_REOPEN, t, "cannot create a transaction"); w.full_tx(A_REOPEN, "the reopened database", t, w.base); api::tx_destroy(t); }
        if (k + 1 < times) { w.close(); d = files_diff(f, db_files(w.path)); w.chk(A_REOPEN, d.empty(), "opening and closing changed the database: %s", d.c_str()); }
      }
    }
    w.full_db(A_REOPEN, "at the end");
    c.nontrivial = w.n.commits >= 1 && w.n.reopens >= 2 && w.base.size() >= 1;
    c.label("reopenings", w.n.reopens); c.label("transactions left uncommitted at a close", withbuf);
    w.close();
  });
}
// Reads and failing calls do not change the files either; the lock file is gone after close.
static void quiet_stage(Ctx &c) {
  judged(c, [&] {
    Src &s = c.s;
    World w(c, A_REOPEN | A_ROOT | A_MAP | A_ITER | A_HIST | A_ERR); w.limits();
    w.keys = gen_keys(s, 30);
    w.open();
    size_t steps = s.small(40);
    for (size_t i = 0; i < steps; i++) w.step();
    w.reopen();
    Files f = db_files(w.path);
    unsigned wr[O_N] = {0}; wr[O_TX_OPEN] = 3; wr[O_TX_AT] = 3; wr[O_TX_DESTROY] = 2; wr[O_TX_CLEAR] = 1; wr[O_TX_INJECT] = 1; wr[O_INSERT] = 4; wr[O_REMOVE] = 3; wr[O_GET] = 4; wr[O_HAS] = 2; wr[O_PROVE] = 3; wr[O_ITER] = 2; wr[O_ONE_GET] = 3; wr[O_ONE_PROVE] = 2; wr[O_ONE_ITER] = 2; wr[O_INJECT] = 2; wr[O_BAD] = 3; wr[O_DB_ROOT] = 1;
    memcpy(w.w, wr, sizeof wr);
    size_t more = 5 + s.below(25);
    for (size_t i = 0; i < more; i++) w.step();
    std::string d = files_diff(f, db_files(w.path));
    w.chk(A_REOPEN, d.empty(), "calls that commit nothing changed the files: %s", d.c_str());
    w.close(); w.base = w.committed;
    d = files_diff(f, db_files(w.path));
    w.chk(A_REOPEN, d.empty(), "closing changed the files: %s", d.c_str());
    w.open();
    w.full_db(A_REOPEN, "reopened");
    d = files_diff(f, db_files(w.path));
    w.chk(A_REOPEN, d.empty(), "opening changed the files: %s", d.c_str());
    c.nontrivial = w.n.commits >= 1 && w.base.size() >= 1;
    w.close();
  });
}
const Prop the_prop = {"C09", "reopen: at least one commit, two reopenings and one record; quiet: at least one commit and one record, then only calls that must not reach the files",
  {{"reopen", reopen_stage, 25000, 2000000, 8}, {"quiet", quiet_stage, 15000, 1000000, 8}}};
