T_DB = 'static: path-sensitive typestate / dataflow over LLVM IR'

prop('D01', 'A commit reports success only once it is durable',
     "When committing a write transaction reports success, every page it changed and then the meta page naming the new version have been written completely and flushed to stable storage, in that order, each changed page at its own place in the file. "
     "The new version becomes visible to other transactions only after its meta page is flushed, and any failed write or flush makes the commit report an error without the new version becoming visible.",
     'crash_points fault_sequences histories', 'every path through a commit: every set of changed pages, every failing I/O call, every point at which the machine may stop',
     'the tests never crash the process or fail an I/O call between the steps of a commit; they only observe the file after complete runs',
     'src/napr_db.c', [('commit', 'napr_db_txn_commit and everything it calls in src/napr_db.c')], T_DB,
     'Exhaustive over the abstract paths of the commit entry point (every success/failure combination of the file operations, every loop iteration abstracted). Trusts the models of apr_file_write_full/apr_file_sync and APR hash iteration; it does not decide whether the disk honours a flush.',
     ENGINE + "The commit entry point is interpreted with every file operation able to fail; the monitor tracks which bytes are unflushed, which changed pages of the dirty set have been written and at which offset, and when the live pointer moves. Obligations are raised at every write, flush, live switch and exit.")

prop('D02', 'Reopening always finds the newest complete version',
     "A commit never overwrites the meta page of the version that is currently live: it writes the other of the two slots, with the identification, version, transaction number, page count and tree roots of the new version. "
     "Opening a database selects a meta page that passes validation, and of two valid ones the one with the larger transaction number; opening an existing file never truncates or reinitialises it, and opening reports an error when no meta page is valid or when the version does not fit in the memory map.",
     'crash_points histories inputs', 'every history of commits and every content of the two meta slots found when opening',
     'tests open files that a clean run produced; torn or damaged meta pages and all orders of the two slots are not sampled',
     'src/napr_db.c', [('meta slot alternation', 'napr_db_txn_commit'), ('recovery', 'napr_db_env_open')], T_DB,
     'All abstract paths of commit and of open, with arbitrary contents of both meta pages. Does not consider a torn meta page that still carries a valid magic and version (the format has no checksum).',
     ENGINE + "Commit is interpreted to find which slot each meta write targets and what it contains; open is interpreted with arbitrary meta contents, and at every successful exit the selected page must be validated and the newest valid one, and the file untouched if it existed.")

prop('D03', 'Every transaction works on one consistent snapshot',
     "A transaction sees exactly the version that was current when it began: its roots, page count and transaction number are taken from one current version while no commit can be switching it, a write transaction's number being one more than that version's. "
     "Reads, writes and cursor movements use the transaction's own snapshot and never the version that happens to be current at that moment.",
     'schedules histories', 'every interleaving of readers beginning with writers committing, every operation of a running transaction',
     'tests run transactions in a few fixed orders; no schedule interrupts a reader while it captures its snapshot',
     'src/napr_db.c src/napr_db_tree.c src/napr_db_cursor.c', [('snapshot capture', 'napr_db_txn_begin'), ('version switch', 'napr_db_txn_commit'), ('data access', 'napr_db_get, napr_db_put, napr_db_del, napr_db_cursor_get')], T_DB,
     'Lock discipline and data flow on all abstract paths, which is sufficient for atomic capture under a correct mutex. Content isolation of pages is D04 (see the known finding there).',
     ENGINE + "Begin, commit and abort are interpreted with a lock typestate; every read of the live version must happen under the lock that excludes the switch, the handle's fields must equal the live version's fields at exit, and no function reachable from data access may load root/txnid fields of a meta page.")

prop('D05', 'Every reader is registered, alone in its slot, until it ends',
     "A read-only transaction that begins successfully is recorded in the reader table, under the table's lock, in a slot that was free, with its own snapshot number and owner; when no slot is free, beginning fails and leaves no trace. "
     "Ending it, by commit or abort, frees exactly the slot it owns, after looking through the whole table.",
     'schedules histories', 'every table occupancy, every order of readers beginning and ending, every failure while beginning',
     'tests use a handful of readers; a full table, and foreign slots with equal numbers, are not enumerated',
     'src/napr_db.c', [('registration', 'napr_db_txn_begin'), ('release', 'napr_db_txn_commit, napr_db_txn_abort')], T_DB,
     'All abstract paths of begin/commit/abort for an arbitrary reader table. Assumes a mutex acquisition whose status the code ignores succeeds.',
     ENGINE + "The reader table is an arbitrary array; the loop that scans it is analysed inductively (start, step, bound), and every store into it must be under the lock, into one slot only, that is free (begin) or owned by this transaction (end).")

prop('D06', 'One writer at a time, and no lock outlives its transaction',
     "A write transaction holds the writer lock from before it reads the current version until it has committed or aborted; the database file and the current version are only changed while it is held. "
     "However a transaction begins or ends, successfully or not, each lock is released exactly once, read-only transactions never touch the writer lock, and the transaction's memory is released once and not used afterwards.",
     'schedules fault_sequences', 'every path through beginning, committing and aborting, including every failing step',
     'tests take the success paths; a failing commit or begin that keeps the lock would only show as a hang of the next writer',
     'src/napr_db.c', [('begin', 'napr_db_txn_begin'), ('end', 'napr_db_txn_commit, napr_db_txn_abort'), ('locks made', 'napr_db_env_open')], T_DB,
     'All abstract paths of open/begin/commit/abort. Assumes callers end each transaction once.',
     ENGINE + "Lock and handle-lifetime typestate over begin, commit and abort, with every allocation, lock and file operation able to fail; opening must have made the locks of the kind asked for whenever it reports success.")
