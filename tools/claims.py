# id: (technique, level, note)
EXP = 'Exploration by generated cases: it shows the absence of counterexamples among the cases run, no more. '
TRUST = 'Trusts the harness, its independent reference code (src/ref.cc), the compiler and sanitizers, and the kernel.'
ENUM = 'For each generated history every fault point named below is tried in turn; the histories themselves are generated, not exhaustive. '
CLAIMS = {
 'C01': ('stateful model-based testing against a dictionary', 'exploration', EXP + 'Histories of up to 120 calls over up to 270 keys, all value lengths 0-1023. ' + TRUST),
 'C02': ('generated record sets and histories against an independent reference trie; metamorphic (order, detours, reopen)', 'exploration', EXP + TRUST),
 'C03': ('generated record sets; every key proved and verified by the library and by an independent verifier', 'exploration', EXP + TRUST),
 'C04': ('forgery search: structured proof generators and mutators against the true record set', 'exploration', EXP + 'Assumes BLAKE2b collision resistance. ' + TRUST),
 'C05': ('structured and raw proof fuzzing under ASan/UBSan against an independent verifier (differential)', 'exploration', EXP + TRUST),
 'C06': ('model-based testing of iterators against the sorted record set', 'exploration', EXP + TRUST),
 'C07': ('model-based testing over commit histories: every committed root compared with its recorded record set', 'exploration', EXP + TRUST),
 'C08': ('stateful model-based testing with several live transactions', 'exploration', EXP + TRUST),
 'C09': ('stateful model-based testing across close and reopen, differential of the directory before and after', 'exploration', EXP + TRUST),
 'C10': ('fault enumeration: a kill at every system call (before, after, partway) of generated histories, model as oracle', 'fault_enumeration', ENUM + 'Kill points: each system call the library makes. Power loss is not modelled. ' + TRUST),
 'C11': ('generated histories with cut, overwritten or extended tails against the recorded end of each commit', 'exploration', EXP + TRUST),
 'C12': ('fault enumeration: each system call of a commit fails in turn (errno, short counts), model as oracle', 'fault_enumeration', ENUM + TRUST),
 'C13': ('fault enumeration: each system call of an open fails in turn, then the database must still hold everything', 'fault_enumeration', ENUM + TRUST),
 'C14': ('generated schedules of several real processes stepped at their system calls; at most one owner', 'exploration', EXP + TRUST),
 'C15': ('generated directories and databases; everything except the database compared before and after', 'exploration', EXP + TRUST),
 'C16': ('stateful model-based testing with lowered file, buffer and descriptor limits, sparse far offsets and multi-megabyte commits', 'exploration', EXP + 'The limits are lowered through the URKEL_VERIF hook; one stage runs at the real limits. ' + TRUST),
 'C20': ('differential testing against an independent BLAKE2b, length sweep up to and past 4 GiB', 'exploration', EXP + TRUST),
 'C23': ('model-based testing of failing calls: documented code, nothing changed', 'exploration', EXP + TRUST),
 'C25': ('stateful model-based testing with inject and clear over recorded histories', 'exploration', EXP + TRUST),
 'C17': ('generated calls under generated thread schedules (controlled scheduler), linearizability against the model', 'exploration', EXP + 'Two to four threads, 2-5 calls each, pre-emption at locks, system calls and memory accesses. ' + TRUST),
 'C18': ('generated concurrent calls under ThreadSanitizer, with controlled and free schedules', 'exploration', EXP + 'ThreadSanitizer judges the happens-before order of the executions run. ' + TRUST),
 'C19': ('generated call sequences under ASan/UBSan with leak accounting of memory, descriptors and mappings; the same under valgrind', 'exploration', EXP + TRUST),
 'C21': ('generated command lines against a model of the documented tool, in a scratch directory as an unprivileged user', 'exploration', EXP + TRUST),
 'C22': ('generated path spellings (metamorphic: each names the same directory) and lengths up to the limit', 'exploration', EXP + TRUST),
 'C24': ('stateful model-based testing with injected unreadable data files; an independent reader of the files says what each call needs', 'exploration', EXP + TRUST),
 'C27': ('stateful model-based testing; the files before and after each call, with a bound on each commit computed from the changed records', 'exploration', EXP + 'One stage fails commits, one damages tails. ' + TRUST),
 'C28': ('metamorphic: generated programs for several databases, run alone and interleaved (one thread, scheduled threads, ThreadSanitizer), answers compared', 'exploration', EXP + 'Two to four databases. ' + TRUST),
 'C29': ('metamorphic: generated calls repeated, with accounting of allocations, descriptors and mappings; generated commit histories and large trees against bounds on what may stay', 'exploration', EXP + TRUST),
 'C30': ('metamorphic: generated databases measured small and grown; work of each call, counted in instrumented code, per node of its path (computed from the keys)', 'exploration', EXP + 'A call counts as grown when it costs more than 2.5 times what it did at most on the small database; constant factors are not judged. BLAKE2b itself is not counted. ' + TRUST),
 'C31': ('forgery search: commit records made without the key, stored as values or left behind the last commit; the recorded history as oracle', 'exploration', EXP + 'Assumes that a keyed 20-byte BLAKE2b checksum cannot be guessed. ' + TRUST),
 'C32': ('stateful histories under generated umasks; permissions and every used descriptor looked at', 'exploration', EXP + TRUST),
 'C33': ('metamorphic: generated programs run plainly and in a generated process state, answers compared; state of the process and of the buffers compared before and after each call', 'exploration', EXP + TRUST),
 'C34': ('stateful histories with generated power losses: images of the disk built from what was synced, reopened and compared with the model', 'exploration', EXP + 'Creating, removing and cutting files is taken as on disk at once; a data file loses a tail only. ' + TRUST),
 'C26': ('round trip through an independent reader and an independent writer of the on-disk format', 'exploration', EXP + TRUST),
}
NOT = {}
