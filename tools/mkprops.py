#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "A transaction is an exact map from 32-byte keys to 0-1023 byte values",
  "For every sequence of inserts, removes, gets and has-checks on a transaction, interleaved with commits and with closing and reopening the database, each call answers as a plain dictionary would: a get returns byte for byte the last value inserted for that key (any length 0 to 1023), and absent keys are reported as not found. It holds for all key sets, including keys that share up to 255 leading bits, and for every mixture of buffered and already stored records.",
  ["inputs", "histories"], "all keys, values of all lengths, all operation sequences with commits and reopens in any place",
  "Tests use hashed (uniform) keys, 64-byte values and one fixed order of operations; they read back no value longer than 64 bytes and no key set with long shared prefixes.",
  ["src/tree.c", "src/nodes.c", "src/bits.c", "src/store.c"],
  [("radix insert/remove/get recursion", "src/tree.c urkel_tree_insert, urkel_tree_remove, urkel_tree_get"),
   ("prefix split, join, collide", "src/bits.c"), ("node and value pointers", "src/nodes.c urkel_pointer_write, urkel_node_save")],
  [("transaction tree", "partly in memory, partly references into the files", "src/tree.c urkel_tx_s")],
  ["urkel_tx_get", "urkel_tx_has", "urkel_tx_insert", "urkel_tx_remove"])

p("C02", "The root hash is the canonical Merkle hash of the record set",
  "The root reported for a transaction or database is a pure function of its set of (key, value) records: it equals the documented BLAKE2b-256 radix-tree hash of that set (32 zero bytes when empty), whatever the order of inserts, overwrites and removes that produced it. The value is the same before commit, after commit, through a snapshot and after reopening.",
  ["inputs", "histories"], "all record sets and all histories leading to the same record set",
  "No test compares a root with an independently computed one, and none reaches the same set through two histories; only inequality and self-equality of a few roots are tested.",
  ["src/tree.c", "src/nodes.c", "src/util.c", "src/bits.c", "src/blake2b.c", "doc/tree.md", "README.md"],
  [("node hashing", "src/nodes.c urkel_node_hash, src/util.c urkel_hash_internal/urkel_hash_value"),
   ("canonical restructuring on insert and remove", "src/tree.c, src/bits.c urkel_bits_split/join")],
  [("cached node hash", "hash kept with a node once computed", "src/nodes.h URKEL_FLAG_HASHED")],
  ["urkel_root", "urkel_tx_root"])

p("C03", "Every key has a proof that verifies and tells the truth",
  "For every record set and every key, creating a proof succeeds, and verifying it against the current root of the same view succeeds and reports exactly the truth: the stored value if the key is present, non-existence if it is absent. This holds for buffered, committed, reopened and historical views, and the proof bytes are the compact wire encoding that other implementations read (as in the README example).",
  ["inputs", "histories"], "all record sets, all keys (present, absent with diverging prefix, colliding leaf, empty tree), all views",
  "Tests prove only uniform keys in one 1000-record tree, always with 64-byte values; long prefixes, one-record and empty trees, long values and the byte format are never exercised.",
  ["src/tree.c", "src/proof.c", "src/bits.c", "src/util.c", "README.md", "doc/tree.md"],
  [("proof creation", "src/tree.c urkel_tree_prove"), ("wire encoding", "src/proof.c urkel_proof_write/urkel_proof_read"), ("verification", "src/proof.c urkel_proof_verify")],
  [], ["urkel_prove", "urkel_tx_prove", "urkel_verify"])

p("C04", "No proof can make verification assert something false",
  "For a root of any record set, any key and any byte string offered as a proof, verification either rejects it or reports exactly what that record set says about the key. In particular proofs that were altered, spliced from other proofs, re-typed, re-depthed, made for another key, another value or another root are never accepted with a false answer.",
  ["inputs"], "all (record set, key, proof bytes) triples, in particular adversarial recombinations of honest proof material",
  "The tests never offer a dishonest proof at all.",
  ["src/proof.c", "src/tree.c", "src/bits.c"],
  [("hash chain, depth and path checks", "src/proof.c urkel_proof_verify"), ("structural checks", "src/proof.c urkel_proof_read, urkel_proof_is_sane")],
  [], ["urkel_verify"])

p("C05", "Any byte string offered as a proof is handled cleanly",
  "Verifying an arbitrary byte string of any length never crashes, never reads or writes outside the given buffers, never leaks memory, and is deterministic. It accepts exactly the strings that are well-formed encodings (no truncation, no trailing bytes, no out-of-range field) and check out against the root; otherwise it returns 0 with the existence flag and value length zero and a documented verification error code.",
  ["inputs"], "all byte strings, keys and roots",
  "No test passes a malformed proof.",
  ["src/proof.c", "src/bits.c", "src/tree.c"],
  [("bounds-checked decoder", "src/proof.c urkel_proof_read, src/bits.c urkel_bits_read"), ("result and error reporting", "src/tree.c urkel_verify")],
  [], ["urkel_verify", "urkel_errno"])

p("C06", "Iteration yields every record exactly once in ascending key order",
  "An iterator over any view (buffered, committed, mixed, historical, empty, arbitrarily deep) yields each record of that view exactly once, in ascending byte order of keys, with its exact value, and then reports end of iteration, and keeps reporting it. Stopping early, reading records from the same view while iterating, or asking for keys only changes nothing.",
  ["inputs", "histories"], "all record sets and mixtures of stored and buffered nodes, up to the maximal tree depth of 256",
  "Tests iterate over one set of uniform keys (depth about 20); trees deeper than that, one-record and empty trees, and early termination are not covered.",
  ["src/tree.c"],
  [("explicit traversal stack", "src/tree.c urkel_iter_seek, urkel_iter_push")],
  [("iterator stack", "path from the root to the current node", "src/tree.c urkel_iter_s")],
  ["urkel_iterate", "urkel_iter_create", "urkel_iter_next"])

p("C07", "Every committed root stays readable as an exact snapshot",
  "After any number of later commits, reverts, closes and reopens, each root that was ever committed (and the empty root) can be opened as a snapshot, and gets, has-checks, proofs and iteration on it return exactly the records at that commit. A root that was never committed is reported as not found, without disturbing anything.",
  ["histories", "inputs"], "all commit histories, all positions of reopens, all choices of historical or unknown root",
  "One test reads one older root once, in the same session; lookups across reopens, empty and one-record roots and unknown roots are not tested.",
  ["src/store.c", "src/tree.c"],
  [("chain of commit records walked backwards, with a root cache", "src/store.c urkel_store_read_history"),
   ("append-only files", "src/store.c")],
  [("root cache", "roots seen in this session", "src/store.c urkel_cache_t"), ("last_meta", "how far back history has been walked", "src/store.c urkel_store_s")],
  ["urkel_tx_create", "urkel_tx_inject", "urkel_get", "urkel_iterate"])

p("C08", "Transactions are isolated and commits publish atomically",
  "Changes buffered in a transaction are invisible to the database, to every other open transaction and after reopening until that transaction commits; a commit makes the database's contents exactly that transaction's contents, all at once. Views already open never change because another transaction commits, is reset or is destroyed, and dropping a transaction leaves no trace.",
  ["histories"], "all interleavings of operations of several open transactions, snapshots and one-shot calls",
  "Tests only ever have one transaction open.",
  ["src/tree.c", "src/store.c"],
  [("copy-on-write nodes owned by the transaction", "src/tree.c urkel_tree_insert/remove"), ("state switch on commit", "src/store.c urkel_store_commit")],
  [("committed state", "root all new transactions start from", "src/store.c urkel_store_s.state")],
  ["urkel_root", "urkel_tx_create", "urkel_tx_commit", "urkel_insert"])

p("C09", "Reopening yields exactly the last committed state",
  "After any history, closing and reopening the database (any number of times, with or without work in between) yields exactly the root and records of the last successful commit, byte for byte, and nothing of uncommitted work; further commits then work as before. Opening an existing database does not change it.",
  ["histories"], "all histories with closes and reopens in any place, including empty, one-record and emptied databases",
  "One test reopens once after one pattern of inserts; reopening an emptied, empty or one-record database and repeated reopens are not tested.",
  ["src/store.c", "src/nodes.c", "src/tree.c"],
  [("recovery scan for the last commit record", "src/store.c urkel_store_recover_state, urkel_store_find_meta"), ("node and value encoding", "src/nodes.c")],
  [], ["urkel_open", "urkel_close", "urkel_root"])

p("C10", "A process kill at any point loses nothing that was committed",
  "If the process is killed at any instant (while creating, opening, writing, committing, recovering or closing), the next open succeeds and shows exactly the state of the last commit that had returned, or of the commit that was in flight if it had been written completely, never a mixture. All earlier committed roots stay readable and the database accepts further commits; this also holds if recovery itself is killed.",
  ["crash_points", "histories"], "all workloads and all kill points between and inside the system calls they issue, including kills during recovery",
  "The only crash test removes the very last byte of a finished file once.",
  ["src/store.c", "src/io_posix.c", "src/io.c"],
  [("append-only writes sealed by a keyed checksum", "src/store.c urkel_meta_write/read"), ("backwards scan and truncation on open", "src/store.c urkel_store_find_meta")],
  [("store state", "last commit record found", "src/store.c urkel_store_recover_state")],
  ["urkel_open after SIGKILL"])

p("C11", "A lost or damaged file tail falls back to the last intact commit",
  "If the end of the newest data file is cut off at any byte, has stray bytes appended, has its newest commit seals damaged, or whole newest files are missing, opening the database yields exactly the newest commit that is still entirely present (empty if none). Every older root stays readable, and later commits and reopens work normally.",
  ["fault_sequences", "histories"], "all histories, all truncation lengths, garbage tails and damaged seals, across file boundaries",
  "One test cuts a single byte; other lengths, cuts inside earlier commits, garbage tails and multi-file databases are never tried.",
  ["src/store.c"],
  [("keyed checksum over the commit record", "src/store.c urkel_meta_read"), ("aligned backwards scan in large blocks, over all files", "src/store.c urkel_store_find_meta, urkel_store_recover_state")],
  [], ["urkel_open", "urkel_root"], "URKEL_VERIF makes the file size, block size and buffer limits settable so that small databases span many files and blocks")

p("C12", "A failed commit changes nothing and can be recovered from",
  "If writing fails at any point of a commit (disk full, I/O error, partial write, no file handle), the commit reports failure with the write error code and the database, its root, all snapshots and other transactions are exactly as before; the transaction can still be used, reset or destroyed safely. Once writing works again, later commits succeed and everything committed is readable then and after reopening, with no trace of the failed commit.",
  ["fault_sequences", "histories"], "all workloads, all positions and kinds of write-path failures, transient or lasting",
  "No test injects an I/O failure.",
  ["src/tree.c", "src/store.c", "src/io_posix.c"],
  [("commit error paths", "src/tree.c urkel_tree_commit, urkel_tx_commit"), ("write buffer bookkeeping", "src/store.c urkel_store_flush"), ("short-write handling", "src/io_posix.c urkel_file_write")],
  [("write buffer", "bytes not yet in the file", "src/store.c urkel_slab_t")],
  ["urkel_tx_commit", "urkel_insert", "urkel_remove"])

p("C13", "A failing open never destroys committed data",
  "If opening fails or meets errors for any reason (no file handle, permission or I/O error, interrupted calls), it either succeeds with the complete committed state or fails with the open error code. In no case does it remove or alter committed data: once the cause is gone, opening shows everything that was committed.",
  ["fault_sequences"], "all system-call failures, single or lasting, at every step of opening, for single- and multi-file databases",
  "No test makes an open fail.",
  ["src/store.c", "src/io.c", "src/io_posix.c"],
  [("recovery that removes files without a commit record", "src/store.c urkel_store_recover_state"), ("key file handling", "src/store.c urkel_store_init_meta")],
  [], ["urkel_open"])

p("C14", "At most one process has a database open",
  "Of any set of processes opening, closing, destroying or being killed concurrently, at most one has a given database open at a time; the others get the open error, and their attempts never disturb the owner's data. Once the owner closes or dies, the next open succeeds and sees all its commits.",
  ["schedules", "crash_points"], "all interleavings, at system-call granularity, of opens, commits, closes, destroys and kills of several processes",
  "Tests use a single process.",
  ["src/store.c", "src/io.c", "src/io_posix.c"],
  [("advisory lock on a lock file", "src/io.c urkel_fs_open_lock, src/io_posix.c urkel_fs_flock"), ("lock taken during open and destroy", "src/store.c urkel_store_init, urkel_store_destroy")],
  [], ["urkel_open", "urkel_destroy"])

p("C15", "Destroy removes the whole database and nothing else",
  "Destroying a database that no other process has open removes all of its files and its directory and reports success, and the path can then be used for a fresh, empty database. It never touches files that are not the database's, and where it cannot succeed (no such database, foreign files present, database in use) it reports the open error code.",
  ["inputs", "histories"], "all database histories (including multi-file and interrupted ones) and directory contents",
  "Tests destroy only small intact one-file databases with nothing else in the directory.",
  ["src/store.c", "src/tree.c", "src/io_posix.c"],
  [("removal by exact file name under the lock", "src/store.c urkel_store_destroy, src/util.c urkel_parse_u32")],
  [], ["urkel_destroy"])

p("C16", "Growth over many files and huge commits changes no answer",
  "When data spills over into any number of data files, exceeds the number of files kept open, or a commit exceeds the write buffer, every answer, root, proof, snapshot and reopen is the same as for a database in a single file. Records and commit seals falling on a file boundary at any offset are handled the same.",
  ["configurations", "histories", "inputs"], "all histories and all positions of file, buffer and scan-block boundaries relative to the data",
  "The limits are 2 GB per file, 64 MB per buffer and 32 open files; tests write about 200 KB.",
  ["src/store.c", "src/io_posix.c"],
  [("file rollover and write buffer chunks", "src/store.c urkel_slab_write, urkel_store_flush, urkel_store_write"), ("open-file eviction", "src/store.c urkel_store_evict")],
  [("write buffer offsets", "where the buffer crosses into the next file", "src/store.c urkel_slab_t"), ("file map", "open data files", "src/store.c urkel_filemap_t")],
  ["all calls"], "URKEL_VERIF makes the file size, write buffer, scan block and open-file limits settable at run time")

p("C17", "Concurrent calls behave as if executed one at a time, without deadlock",
  "When several threads use one database, and even one transaction, at the same time, each call takes effect atomically: the results are those of some sequential order of the calls that respects their real-time order. Every call returns (no schedule deadlocks), and no schedule crashes the process.",
  ["schedules", "histories"], "all thread schedules at lock, allocation and system-call granularity, for generated per-thread programs sharing databases, transactions and iterators (a thread does not call a modifying or snapshot-opening function while it holds an iterator itself)",
  "Tests are single-threaded.",
  ["src/tree.c", "src/store.c", "src/io_posix.c"],
  [("reader-writer locks on the database and on each transaction", "src/tree.c"), ("lock on the file map", "src/store.c urkel_filemap_t"), ("lock upgrade in root and prove", "src/tree.c urkel_tx_root, urkel_tx_prove")],
  [], ["all calls from several threads"], "URKEL_VERIF small limits make several threads open historical files at once")

p("C18", "Concurrent use is free of data races, and error codes are per thread",
  "No sequence of calls that several threads may make on a shared database, shared transactions and iterators causes two unsynchronised conflicting memory accesses inside the library. The error code that a thread reads after a failed call is always that of its own call.",
  ["schedules", "histories"], "all thread schedules and per-thread programs",
  "Tests are single-threaded, and a race need not show in results.",
  ["src/tree.c", "src/store.c", "src/nodes.c", "src/io_posix.c"],
  [("locks", "src/tree.c, src/store.c"), ("thread-local error number", "src/tree.c __urkel_get_errno")],
  [("lazily computed node hashes", "written under the transaction's write lock", "src/nodes.c urkel_node_hash")],
  ["all calls from several threads, urkel_errno"])

p("C19", "No call sequence corrupts memory, reads garbage, or leaks",
  "For every well-formed sequence of calls, successful or failing (failed opens, unknown roots, malformed proofs, refused inserts, failed commits, early-ended iterations), the library makes no invalid or uninitialised memory access. Once all transactions, iterators and proofs are released and the database is closed, no memory, file descriptor or mapping acquired by the library remains.",
  ["histories", "inputs", "fault_sequences"], "all call sequences, with and without injected I/O failures",
  "The tests run under valgrind, but only along the one path they take; almost no error path is taken.",
  ["src/tree.c", "src/store.c", "src/proof.c", "src/nodes.c", "src/io_posix.c"],
  [("node ownership rules", "src/nodes.c urkel_node_destroy, src/tree.c"), ("error-path cleanup", "src/store.c urkel_store_init, src/tree.c urkel_open, urkel_verify")],
  [], ["sanitizer reports, live allocations and descriptors after the last release"])

p("C20", "The exported hash is BLAKE2b-256 for every input",
  "For every byte string of every length, the exported hash function returns the standard unkeyed BLAKE2b digest of 32 bytes, independent of alignment, of earlier calls and of concurrent calls.",
  ["inputs"], "all byte strings, in particular lengths around multiples of the 128-byte block",
  "No test compares a digest with a reference value.",
  ["src/blake2b.c", "src/util.c", "src/tree.c"],
  [("compression function and buffering", "src/blake2b.c")], [], ["urkel_hash"])

p("C21", "The command line tool does exactly what the library does",
  "For every sequence of command line invocations, create, insert, remove, get, list, info, root, prove, verify and destroy have the documented effects and output: values, keys, roots and proofs in lower-case hex, one per line, agreeing with a dictionary, its canonical root and its proofs. Keys are raw hex, or hashed with -H; -r reads a historical root, and the database is chosen by -p, else URKEL_PATH, else the current directory; invalid arguments and failing actions exit non-zero and change nothing.",
  ["inputs", "histories", "configurations"], "all command sequences and argument spellings",
  "The tool has no tests.",
  ["src/urkel.c", "README.md"],
  [("option parsing and actions", "src/urkel.c urkel_options_init, urkel_main"), ("hex codec", "src/urkel.c urkel_base16_decode/encode")],
  [], ["exit status and standard output of the urkel executable"])

p("C22", "Every spelling of a path names the same database",
  "Relative paths, '.', '..', repeated and trailing slashes, and absolute paths that name the same directory open the same database, which is created exactly there and nowhere else. Paths too long to handle or with a missing parent are refused with the open error code, without memory errors and without creating anything.",
  ["inputs", "configurations"], "all path spellings (without symbolic links) from all working directories, of all lengths around the limit",
  "Tests use one fixed relative path.",
  ["src/io_posix.c", "src/store.c"],
  [("path resolution and normalisation", "src/io_posix.c urkel_path_resolve, urkel_path_normalize"), ("length limit", "src/store.c urkel_store_init_prefix")],
  [], ["urkel_open", "urkel_destroy"])

p("C23", "Every failing call reports the documented code and changes nothing",
  "A call that cannot do its work (absent key, value over 1023 bytes, unknown root, ended iterator, unusable path) returns 0 or NULL and sets the documented error code, and leaves the transaction, the database, its files' committed content and all other views exactly as they were. A proof that is wrong in one respect is refused with the code documented for that respect.",
  ["inputs", "histories"], "all states and all failing calls in them",
  "Tests check one error code (oversized value) and no state after a failure.",
  ["src/tree.c", "src/proof.c", "include/urkel.h", "doc/api.md"],
  [("error number assignments", "src/tree.c, src/proof.c")], [], ["urkel_errno, return values"])

p("C24", "Unreadable stored data is reported, never crashes or falsifies answers",
  "If part of the stored data cannot be read (an older data file cannot be opened, or turns out to be missing or cut short when it is first needed), every operation that needs it fails with an error and leaves its transaction and the database unchanged; for reads and iteration of an open view the error is the corruption code, never 'not found' or a wrong value. Operations that do not need the data work normally, and everything is right again once the data is readable.",
  ["fault_sequences", "histories"], "all histories over several data files, all subsets of unreadable files, at any time",
  "No test makes stored data unreadable.",
  ["src/tree.c", "src/store.c", "src/io_posix.c"],
  [("resolve failure paths", "src/tree.c cases on URKEL_NODE_HASH, src/store.c urkel_store_resolve, urkel_store_retrieve"), ("bounds check on reads", "src/io_posix.c urkel_file_pread")],
  [], ["urkel_tx_get", "urkel_tx_remove", "urkel_iter_next", "urkel_errno"], "URKEL_VERIF small limits, so that small databases span several files")

p("C25", "Reverting to a historical root takes effect everywhere at once",
  "After reverting the database to a committed root, the database's root, new transactions, resets of existing transactions and one-shot calls without an explicit root all start from exactly that root's records, and the next commit builds on them. Re-basing a transaction on a root behaves like creating a new transaction there, discarding its buffered changes; later roots stay readable as history.",
  ["histories"], "all histories with reverts of the database and re-basing of transactions, in any place",
  "One test re-bases a transaction once and looks only at the root; reverting the database is never tested.",
  ["src/tree.c", "src/store.c", "doc/api.md"],
  [("revert flag and root lookup", "src/tree.c urkel_inject, urkel_tx_create, urkel_tx_clear, urkel_tx_inject")],
  [("revert", "database root differs from the last commit", "src/tree.c urkel_s.revert")],
  ["urkel_inject", "urkel_tx_inject", "urkel_tx_clear", "urkel_root"])

p("C26", "The on-disk format stays readable both ways",
  "Database files written by this version can be decoded by an independent reader of the established format (numbered append-only files, keyed-checksum commit records, 7-byte pointers, node records) and give exactly the committed records of every commit. Files written by an independent writer of that format are opened with exactly their records, root and history, so existing databases stay usable.",
  ["inputs", "histories"], "all record sets and commit histories",
  "Tests only read files back with the very code that wrote them, so a consistent change of the format passes them.",
  ["src/nodes.c", "src/store.c", "src/util.c"],
  [("pointer, node and commit record encoding", "src/nodes.c urkel_pointer_write, urkel_node_write, src/store.c urkel_meta_write")],
  [], ["files of the database directory"])

p("C27", "Data files are append-only and a commit stores only what changed",
  "What has been written to the data files never changes: no call rewrites, shortens or removes stored bytes, except that opening drops what follows the last intact commit. Only a commit adds to them, and what a successful commit adds is bounded by the records it changed: their leaves, the interior nodes on the way to them (and next to a branch that came or went), and one commit record with its padding. Everything else is shared with earlier commits, however large the tree, also after reopening, reverting and failed commits.",
  ["histories", "fault_sequences"], "all commit histories, with reopening, reverts, snapshots, failing commits and damaged tails, and all tree sizes",
  "Tests look only at answers; a change that rewrites data in place, cuts too much, or writes the whole tree again at each commit gives the same answers.",
  ["src/tree.c", "src/store.c", "src/nodes.c", "README.md"],
  [("structural sharing by node pointers", "src/tree.c urkel_tree_write, URKEL_FLAG_WRITTEN"), ("appending and sealing", "src/store.c urkel_store_flush, urkel_store_write_meta"), ("truncation on open", "src/store.c urkel_store_find_meta")],
  [("slab position", "where the next byte goes", "src/store.c urkel_slab_t.file_pos")],
  ["files of the database directory"], "URKEL_VERIF small limits, so that small databases span several files")

p("C28", "Databases open in the same process are independent of each other",
  "When a process has several databases open at the same time, used in any order by one thread or by a thread for each, every call answers exactly as it does when its database is used alone: contents, roots, proofs, iteration, history, error codes and what is found after reopening. Nothing done with one database (committing, reverting, failing, closing, destroying it) affects another or its lock, a root committed only in one is unknown to the others, and threads using different databases do not race.",
  ["histories", "schedules"], "all sets of call sequences on different databases and all interleavings of them",
  "Tests open one database at a time, in one thread.",
  ["src/store.c", "src/tree.c", "src/io_posix.c", "src/nodes.c"],
  [("state kept per database", "src/store.c urkel_store_s, src/tree.c urkel_s"), ("error code per thread", "src/tree.c __urkel_get_errno"), ("lock file per directory", "src/store.c urkel_store_init_lock")],
  [], ["all calls that take a database"])

p("C29", "An open database holds only what is in use",
  "However much is stored, read or committed, what an open database holds is bounded by what is in use: the changes buffered in transactions, one small entry per known root, a write buffer for the largest commit, and, after each commit, at most 32 open data files. A commit leaves none of its records in memory, an iterator holds no more than the nodes of one path, and calls that change nothing (reads, proofs, iterations, snapshots, dropped transactions, refused and failing calls) can be repeated for ever without another allocation, descriptor or mapping staying behind.",
  ["histories", "fault_sequences"], "all histories of commits, reads and failing calls, all tree sizes and numbers of data files",
  "Tests are short and look at answers; what is kept until the database is closed is freed in the end, so leak checkers do not see it either.",
  ["src/store.c", "src/tree.c", "src/nodes.c", "src/io_posix.c"],
  [("closing of data files", "src/store.c urkel_store_evict"), ("committed nodes become references", "src/tree.c urkel_tree_write"), ("iterator stack", "src/tree.c urkel_iter_next")],
  [("root cache", "one entry per known root", "src/store.c urkel_cache_t"), ("file map", "open data files", "src/store.c urkel_filemap_t")],
  ["allocations, descriptors and mappings of the library between calls"], "URKEL_VERIF small limits, so that small databases have more files than may be open")

p("C30", "The work of a call follows its path, not the size of the database",
  "A lookup, a proof, or an insertion or removal in a transaction touches only the nodes on the search path of its key; a commit or a root computation touches only the nodes changed since the last one; starting a transaction, reverting, or asking for a root seen before or never committed takes a fixed amount of work once the history has been walked; an iterator's step is bounded by one path; opening reads the end of the newest data file. None of them becomes more work per node of its path when the database holds more records, when more commits have been made, or when a transaction buffers more changes (the table of known roots may be enlarged now and then).",
  ["inputs", "histories"], "all sets of keys, all numbers of records, commits and buffered changes, all calls",
  "Tests work on small trees and look at answers; a call that walks the whole tree, the whole history or the whole file gives the same answers.",
  ["src/tree.c", "src/store.c", "src/nodes.c", "README.md"],
  [("descent along one path", "src/tree.c urkel_tree_get, urkel_tree_insert, urkel_tree_remove, urkel_tree_prove"), ("cached hashes and written flags", "src/nodes.c urkel_node_hash, src/tree.c urkel_tree_write"), ("history walked once", "src/store.c urkel_store_read_history"), ("recovery from the end", "src/store.c urkel_store_find_meta")],
  [("last_meta", "how far the history has been read", "src/store.c urkel_store_s")],
  ["work done in the library per call, in basic blocks, memory accesses, system calls and bytes"])

p("C31", "Stored bytes and foreign records never pass for commits",
  "Each database signs its commit records with 32 random bytes of its own, drawn when it is created, kept in its key file and never changed by opening. Whatever bytes stand behind the last commit after an unfinished write (values chosen by users that contain commit records, records of another database with the same history, records signed with another, a partial or no key, or with a wrong or missing checksum, wherever they lie), opening comes up at the last real commit with everything in it, no other root becomes known, and later commits work.",
  ["inputs", "histories", "crash_points"], "all databases, all user values and foreign records, all cuts of the newest file",
  "Tests never leave a plausible commit record behind the last commit, and store no value that looks like one.",
  ["src/store.c"],
  [("key made and kept", "src/store.c urkel_store_init_meta"), ("keyed checksum of a commit record", "src/store.c urkel_meta_read, urkel_meta_write"), ("search for the last commit", "src/store.c urkel_store_find_meta")],
  [("key", "32 random bytes", "src/store.c urkel_store_s")], ["opening of a database", "the key file"])

p("C32", "The library's files and descriptors stay private to their owner",
  "Directory, key file, data files and lock file are created without any permission for others, without write permission for the group, never executable, never beyond the umask, and usable by their owner; later calls leave permissions that the owner chose as they are. No file descriptor of a database, however short-lived, is inherited by a program that the process starts.",
  ["histories", "configurations"], "all histories, umasks and permissions found, every descriptor at every system call",
  "Tests look at answers only; a world-readable signing key, or a lock descriptor that a child keeps open, changes none.",
  ["src/io_posix.c", "src/store.c"],
  [("descriptors opened close-on-exec", "src/io_posix.c urkel_fs_open"), ("modes 0750 and 0640", "src/store.c urkel_store_init_prefix, urkel_store_init_meta, urkel_store_open_file")],
  [], ["permissions of what is in the directory", "open descriptors of the process"])

p("C33", "Calls neither depend on nor change the process around them",
  "Every call gives the same answers in any process: with standard descriptors closed, anything in errno, any umask that leaves the owner his rights, any environment, locale, rounding mode or blocked signals, signals arriving and interrupting system calls or making them short, the current directory changed after a relative path was opened or removed, the calls made by different threads in turn, children forked in between, and buffers at any address, even read-only. No call writes to its inputs or keeps them, writes to an output beyond its answer, or changes the process: standard streams, current directory, umask, signal mask and handlers, environment, locale, limits, random sequences, threads, children and timers stay as they were.",
  ["configurations", "histories"], "all states of the calling process, all call sequences",
  "Tests run in one ordinary process whose state they do not look at.",
  ["src/io_posix.c", "src/io.c", "src/tree.c", "src/store.c", "src/util.c"],
  [("system calls tried again", "src/io_posix.c urkel_fs_open, urkel_fs_read, urkel_fs_write, urkel_fs_pread, urkel_fs_pwrite"), ("path made absolute once", "src/io_posix.c urkel_path_resolve"), ("values copied in and out", "src/nodes.c urkel_node_store, src/tree.c urkel_verify")],
  [], ["answers of all calls", "state of the process and of the caller's buffers after each call"])

p("C34", "A power loss leaves a commit, with all that it and earlier commits hold",
  "When the power fails at any moment, what remains on disk is what was synced and, of each data file, any part from its start of what was written since. The database then opens and is at a commit that was made, not older than the newest one whose files remained whole; that commit and all before it are complete, and it can be used on. In particular nothing is written to a new data file before the file left behind is on disk, also after failed syncs and reopening. In a library built with URKEL_FSYNC a commit that was reported survives, and so does the key file.",
  ["crash_points", "histories"], "all moments of power loss, all lengths that unsynced tails may be cut to, all histories with failing syncs and reopening",
  "Tests never lose the page cache; a sync that is missing, late or on another file changes no answer while the machine runs.",
  ["src/store.c", "src/io_posix.c", "src/io.c"],
  [("old file synced before a new one is used", "src/store.c urkel_store_write"), ("commit synced", "src/store.c urkel_store_commit, urkel_store_sync"), ("key file", "src/io.c urkel_fs_write_file"), ("search for the last commit", "src/store.c urkel_store_recover_state")],
  [("current file", "the one data is appended to", "src/store.c urkel_store_s")], ["state after reopening what remained on disk"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
