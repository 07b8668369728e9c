prop('N01', 'After any history of transactions the database is the map of what was committed',
     "For every sequence of transactions, puts, deletes, aborts and reopenings, a reader sees exactly the records whose last committed operation was a put, with the values last put.",
     'histories crash_points', 'every history of operations over every tree that can arise from it',
     'a test follows one history; errors appear only after many transactions with particular page fillings',
     'src/napr_db.c src/napr_db_tree.c', [('storage engine', 'napr_db_put, napr_db_del, napr_db_txn_commit, napr_db_get')], 'none', '', '',
     na='The invariant ranges over trees of unbounded size and over histories of reused page numbers; no sound static argument in reach carries such a heap-shape invariant through a history. Its parts are decided one operation at a time (D02, D03, D04, D09, D11, D13, D16). The composition is in fact false on this tree: see the known finding of D04.')

prop('N02', 'Different contents practically never share a hash',
     "Two files of different content get different hashes except with negligible probability, so the comparison behind a hash match is almost never wasted.",
     'inputs', 'all pairs of contents',
     'a test hashes a handful of contents',
     'src/ft_file.c src/checksum.h', [('content hash', 'checksum_file')], 'none', '', '',
     na='A probabilistic statement about the mixing quality of a third-party hash function (vendored xxHash); nothing in the text of the program decides it. That equality is not concluded from hashes is S02.')

prop('N03', 'Searching takes time proportional to the amount of data',
     "A search reads each candidate at most once for its hash and finishes in time roughly proportional to the number of files and bytes, also for adversarial names and sizes.",
     'inputs', 'every directory tree',
     'tests use a few small files',
     'src/ft_process.c src/napr_hash.c src/ft_ignore.c', [('whole run', 'ftwin_main')], 'none', '', '',
     na='Running time depends on runtime quantities (collisions in the hash table, backtracking in the regular-expression library, disk behaviour) that a static analysis here cannot bound. Note: the hash table does rehash for ever when as many elements as a bucket may hold share one 32-bit hash (see DESIGN.md).')

prop('N04', 'A report is right even if files change while the search runs',
     "Files that are modified, replaced or removed during the search are either reported according to one of their states or left out, and the program neither crashes nor reports contents that never existed together.",
     'schedules', 'every interleaving of the search with changes by other processes',
     'tests search trees at rest',
     'src/ft_traverse.c src/ft_file.c src/ft_report.c', [('whole run', 'ftwin_main')], 'none', '', '',
     na='The state of the file system between two calls is outside the program; a file truncated while it is mapped raises SIGBUS whatever the code does after mapping. Only single-call facts (no unchecked result, short reads, failed opens) can be decided, and are (S03, S04, S11, S15).')
