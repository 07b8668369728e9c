prop('K01', 'At most one process has a cache open, and its lock never leaks',
     "Opening a cache first takes an exclusive lock on a lock file that depends only on the cache's path, and fails at once when another process holds it; the database is only opened while the lock is held. "
     "A failed open releases the lock and everything else it acquired; closing closes the database before it releases the lock, does both even after an error, and reports errors.",
     'schedules fault_sequences', 'every failing step while opening or closing, every pair of processes opening the same cache',
     'tests open and close a cache successfully in one process; failing steps are not injected',
     'src/napr_cache.c', [('open and close', 'napr_cache_open, napr_cache_close')], T_DB,
     'All abstract paths of open and close with every step able to fail. Trusts the operating system file lock.',
     ENGINE + "Open and close are interpreted with a typestate for the lock file, the lock, the database and the pool.")
prop('K02', 'A cache has at most one transaction, and every one is ended properly',
     "Beginning a transaction on a cache fails without side effects while one is active; a read transaction is read-only. "
     "Ending, committing or aborting ends exactly the active transaction, in the way asked for, reports its failure, and leaves no active transaction even when it failed; entries cannot be accessed without one.",
     'histories fault_sequences', 'every sequence of cache operations, every failing database operation',
     'tests use well-formed sequences of operations that succeed',
     'src/napr_cache.c', [('transactions', 'napr_cache_begin_read, napr_cache_begin_write, napr_cache_end_read, napr_cache_commit_write, napr_cache_abort_write'), ('entries', 'napr_cache_lookup_in_txn, napr_cache_upsert_in_txn')], T_DB,
     'Every public operation from both states (transaction active or not), which covers every sequence by induction. One thread per cache is assumed, as documented.',
     ENGINE + "Each operation is interpreted from both typestates with every database call able to fail; the typestate and the reported status are compared at every exit.")
prop('K03', 'Lookups return whole entries only, and storing replaces',
     "A lookup succeeds only when the database holds a value for exactly the given path whose size is that of an entry, and returns that value; in every other case it fails and returns no entry. "
     "Storing an entry reports success only when the whole given entry is now the value for exactly the given path, replacing any earlier one.",
     'inputs histories fault_sequences', 'every path, every stored value and size, every history of earlier stores, every failing database operation',
     'tests store and look up well-formed entries, mostly once per path and transaction',
     'src/napr_cache.c', [('entries', 'napr_cache_lookup_in_txn, napr_cache_upsert_in_txn')], T_DB,
     'All abstract paths for arbitrary paths and stored values; the database itself is D01 to D16.',
     ENGINE + "Lookup and store are interpreted with arbitrary database answers; keys, values, sizes, the result and the status are compared at every exit.")
prop('K04', 'A sweep removes exactly the unvisited entries, or nothing',
     "A successful sweep has looked at every entry of the cache in one transaction, deleted each that was not marked as visited and kept each that was, and then forgets the marks. "
     "A sweep that fails at any step commits nothing, keeps the marks, ends its transaction and reports the failure.",
     'inputs fault_sequences histories', 'every cache content and set of marks, every failing step',
     'tests sweep a few entries without any failing step',
     'src/napr_cache.c', [('sweep', 'napr_cache_sweep')], T_DB,
     'All abstract paths of the sweep with every step able to fail. Whether the cursor delivers every entry while entries are deleted is D11.',
     ENGINE + "The sweep is interpreted with an arbitrary cursor; the decision for each entry, the commit or abort, and the clearing of the marks are obligations.")
prop('K05', 'Marks from many threads are never lost',
     "Marking a path records a copy of exactly that path that lives as long as the cache; marking touches the set of marks and the cache's memory only while the mark lock is held. "
     "The lock is released on every path and success is reported only when the path is recorded.",
     'schedules fault_sequences', 'every interleaving of threads marking paths, every failing step',
     'races between marking threads do not show up reliably in a test run',
     'src/napr_cache.c', [('marks', 'napr_cache_mark_visited')], T_DB,
     'Lock discipline on all abstract paths, sufficient under a correct mutex. The sweep is documented as single-threaded and excluded.',
     ENGINE + "Lockset and ownership analysis of the marking operation.")
