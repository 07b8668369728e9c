prop('S12', 'Hashing in parallel gives each file its own hash, whatever the schedule',
     "Each hashing task hashes the file it was made for, with that file's size, into that file's own place in its size group and nowhere else. "
     "What worker threads share (counters, containers, memory pools, static storage) is changed or read by them only under the lock that protects it, and every worker leaves that lock free and its private memory released when it ends.",
     'schedules inputs fault_sequences', 'every interleaving of any number of worker threads, every failing step',
     'data races and wrong slots show up only under unlucky schedules or with many files of one size',
     'src/ft_process.c src/ft_image.c', [('hash worker', 'the callback given to napr_threadpool_init in ft_process.c'), ('image worker', 'the callback given to it in ft_image.c')], T_SC,
     'All abstract paths of both worker callbacks. Thread safety of the libraries (APR pools with their own allocator lock, libpuzzle) is assumed.',
     ENGINE + "Both worker callbacks (whatever functions are handed to the pool) are interpreted for an arbitrary task; a lockset monitor covers everything reachable from the shared context, and stores through the task must hit the task's own slot. Code reached by workers must not use static variables.")

prop('S13', 'The worker pool touches its shared state only under its lock',
     "The queue, the counters and the state flags of the worker pool are read and changed only while its mutex is held, what threads read without it never changes after the pool was made, and waiting is done with the mutex held. "
     "Every operation of the pool and every worker thread releases the mutex on every way out, never takes it twice, and never holds it while a task runs or while threads are joined.",
     'schedules fault_sequences', 'every interleaving of submitting, working, waiting and shutting down, every failing mutex or condition operation',
     'no test makes a mutex operation fail, and races need an unlucky schedule',
     'src/napr_threadpool.c', [('operations', 'napr_threadpool_add, _wait, _shutdown'), ('worker', 'the function started by apr_thread_create')], T_SC,
     'All abstract paths of each operation and of the worker loop, from any state of the pool. Creation before the first thread starts is exempt.',
     ENGINE + "Each operation is interpreted with a lockset monitor; every acquisition of the mutex gives the function an arbitrary pool state that satisfies the invariant (rely-guarantee), so all interleavings are covered without enumerating them.")

prop('S21', 'Every submitted task runs exactly once and waiting ends when all are done',
     "A task handed to the worker pool is queued, some thread is woken for it, and it is run exactly once with the pool's context; no queued task is dropped while threads still run. "
     "Waiting for completion returns success only when nothing is queued and no task is running, and it does return then; shutting down stops and joins every thread that was started.",
     'schedules histories', 'any number of threads, tasks and batches, every interleaving, spurious wake-ups',
     'lost wake-ups and early returns need particular interleavings or a second batch on the same pool',
     'src/napr_threadpool.c', [('operations', 'napr_threadpool_init, _add, _wait, _shutdown'), ('worker', 'the function started by apr_thread_create')], T_SC,
     'Queue lengths 0, 1 and more, any number of threads (symbolic); one waiting caller, as documented. Fairness of the operating system is assumed, memory exhaustion is not considered.',
     ENGINE + "Rely-guarantee: each acquisition of the mutex yields every pool state satisfying the invariant (queue well formed; completion recorded only with an empty queue; a waiter with nothing left to do is told so); each release must re-establish it and be an allowed transition (take one and run it, add one and wake, count oneself as waiting, announce completion and broadcast).")

prop('S22', 'Extracting a member of an archive writes one private temporary copy',
     "Extraction writes nothing but a newly created temporary file that only the user may read, never a path named by the archive, and it succeeds only if the requested member was found and copied to its end, block by block as read. "
     "On every way out the archive handles and the file descriptor are released and the process's file mode mask is what it was before.",
     'inputs fault_sequences', 'every archive, truncated and corrupt ones included, every failing operation',
     'tests extract one member of a healthy archive',
     'src/ft_archive.c', [('extraction', 'ft_archive_untar_file')], T_SC,
     'All abstract paths with every libarchive call able to fail, end or warn. What libarchive does with the path it is given is not analysed.',
     ENGINE + "The extraction function is interpreted with typestate for both archive handles, the temporary file, the descriptor and the mode mask; the destination path of the entry at the time the header is written, and the block handed from reading to writing, are obligations.")

prop('S19', 'Image mode reports exactly the pairs of similar pictures',
     "In image mode a signature is computed once for every selected picture, from that picture; after all of them are complete, every pair of pictures with a signature is compared exactly once, and two pictures are reported in one set if and only if their distance is below the chosen threshold. "
     "A picture whose signature cannot be computed takes no part and does not keep others from being compared; no signature is used before it is complete or after it was released, and a failure to start the computation makes the report fail. "
     "Each set is one line of paths divided by the chosen separator.",
     'inputs schedules fault_sequences', 'every number of pictures, every subset of unreadable ones, every outcome of the comparisons, every failure while computing signatures',
     'tests compare two or three readable pictures; unreadable pictures at every place and all combinations of similar and dissimilar ones are not sampled',
     'src/ft_image.c', [('image report', 'ft_image_twin_report'), ('signatures', 'the task function handed to the worker pool')], T_SC,
     'Bounded: 0-3 pictures (thorough 4) with every subset unreadable and every outcome of the distance comparison. The signature and distance functions of libpuzzle are trusted; completeness of the worker pool is S21.',
     ENGINE + "The report is interpreted with the heap, the worker pool and the signature library replaced by their specification; the distance of a pair is an unknown number, so that both outcomes of the threshold test are followed; the text printed on each path is collected and parsed into sets and compared with the pairs found similar. The task function is interpreted on the very task the report submits.")

prop('S23', 'The text report has a layout a script can split without guessing',
     "For every collection of duplicates, standard output holds for each set an optional size line (only when sizes are requested, and giving the size of the files of the set), the paths of the set divided by the chosen separator and an end-of-set empty line, and nothing else: no separator before the first or after the last path, no path lost or run into the next one, and messages go to standard error. "
     "A member of an archive is shown as the path of the archive, a dividing character that differs from the separator, and the name of the member; colour codes appear only on a terminal. "
     "With the structured output the text layout is absent and standard output is exactly one document.",
     'inputs configurations', 'every number of sets and members, every combination of size display, separator, colour, archive members and structured output',
     'tests look for two names in the output of one or two sets; three or more sets of different sizes, of which some hold archive members, with other separators, are not sampled',
     'src/ft_report.c src/ftwin.c src/ft_process.c src/ft_traverse.c', [('report', 'ft_report_duplicates'), ('whole run', 'ftwin_main')], T_SC,
     'Bounded: collections of up to 3 files per size and 2 sizes, every outcome of the comparisons; larger ones run the same loops. The characters of a path are not interpreted: a path holding a newline cannot be told apart, which is the format\'s own limit.',
     ENGINE + "Everything written to standard output on a path through the report is collected as a sequence of tokens (path, member name, separator, colour code, size, literal text) and parsed with the grammar of the report; the earlier stages are scanned for calls that can reach standard output.")

prop('S24', 'A size shown to the user denotes the size it was made from',
     "For every size, the human-readable form is the size divided by a power of 1024 followed by the unit of that power, and the power is the largest that does not exceed the size (up to the largest unit known). "
     "Below one kibibyte the exact number of bytes is shown; above it at least one decimal is shown, and no size is distorted by passing through a type that cannot hold it.",
     'inputs', 'every 64-bit size',
     'tests format a handful of sizes; boundaries between units and very large sizes are not sampled',
     'src/human_size.c', [('formatting', 'format_human_size')], T_SC,
     'The decimal digits themselves are produced by the C library and trusted.',
     ENGINE + "The formatting function is interpreted for an unknown size; on every path the range of sizes that reaches the output is compared with the unit in the text and with the divisor of the number shown, both as a closed arithmetic term over the size.")
