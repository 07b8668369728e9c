T_TR = 'static: abstract interpretation of the IR against an order/layout specification'

prop('D16', 'A lookup finds a key exactly when it is stored',
     "Looking up a key reports success, with the value stored for exactly that key, if and only if a record with that very key is in the tree the transaction sees; keys are compared byte by byte as unsigned bytes and a shorter key comes before every longer key it begins. "
     "The search follows, from the root of the transaction's own tree, the one child whose key range contains the key, uses the transaction's own copy of every page it has changed and the stored page otherwise, and never records a path longer than the room for it.",
     'inputs histories', 'every key and key length (including empty keys and keys too long to be stored), every page filling, every position, every combination of changed and unchanged pages on the way down',
     'tests look up a few hundred ASCII keys of similar length in trees of height one to three; boundary positions with equal prefixes, and mixed changed/unchanged paths, are sampled by luck only',
     'src/napr_db.c src/napr_db_tree.c', [('search in a page', 'db_page_search'), ('descent', 'db_find_leaf_page and its variants'), ('lookup', 'napr_db_get')], T_TR,
     'Search: every position for pages of 0-4 entries (thorough 0-8) with arbitrary key lengths, plus pages of 130, 259 and 600 entries; descent: trees of height 1-3 (thorough 4) with every combination of changed pages. Key order is an oracle on comparisons, so key contents are arbitrary. That the tree is ordered is D09/D13.',
     ENGINE + "The byte comparison is modelled by an oracle that fixes the position of the key among the entries; the function must return that position for every length combination consistent with it. The descents are interpreted over pages at constant page numbers, with every subset of them in the changed-page table; at each exit the leaf and the recorded path must be the ones the key ranges lead to.")

prop('D09', 'Page updates keep every other record intact and in order',
     "Inserting into a page either succeeds, after which the page holds the old entries in order with the new one at its position, or is refused for lack of room and changes nothing; it is refused only when there is no room. Deleting removes exactly the given entry and gives its space back. "
     "Splitting distributes the entries over the page and one new page without losing, repeating or reordering any, leaves neither empty, gives back the space of the moved ones, and reports the first key of the new page as the divider; no entry ever overlaps another or reaches outside its page.",
     'inputs histories', 'every position, every amount of free space around the boundary, every order of the entries inside the page, arbitrary key, value and child contents, oversized keys and values, and every failure while splitting',
     'tests fill pages with records of one size inserted in one order; exact-fit insertions, deletions at every place, fragmented pages and oversize arithmetic are not sampled',
     'src/napr_db_tree.c', [('insertion', 'db_page_insert'), ('deletion', 'db_page_delete'), ('splitting', 'db_split_leaf, db_split_branch')], T_TR,
     'Bounded: layouts of up to 4 (thorough 5) entries per page for insertion and deletion, up to 6 (7) for splitting, with all or representative physical orders and holes; contents are arbitrary symbols. Larger pages are covered only in so far as the code does not depend on the count.',
     ENGINE + "Pages are built with a given layout in which every content byte is a symbol; the operation is interpreted, and the resulting memory is read back through the page format: slot array, offsets, sizes, overlaps, entries and their order are compared with the specification.")

prop('D13', 'Storing or deleting a record leaves every other record reachable',
     "Storing a record enters exactly that key and value into the leaf where a lookup of the key looks for it; when pages must be split, each new page is entered into its parent, up to a new root if necessary, so that every record stays reachable, and deleting removes exactly the record of that key. "
     "A key is stored at most once, a key that is not stored cannot be deleted, a record larger than a page is refused, a read-only transaction changes nothing, and a transaction in which a change failed halfway can no longer be committed. "
     "A commit with replaced pages records exactly those pages as free, under the number of its own transaction, before it completes.",
     'inputs histories fault_sequences', 'every height of the tree, every position, every chain of splits up to a new root, every failure of an allocation, a copy, a split or an insertion, every record size around the limit',
     'tests insert keys in ascending or descending order and look them up; insertions at the seam of a split, below the first divider, chains of splits with a failure in between, and extreme sizes are not sampled',
     'src/napr_db.c src/napr_db_tree.c', [('store', 'napr_db_put'), ('delete', 'napr_db_del'), ('recording freed pages', 'napr_db_txn_commit')], T_TR,
     'Trees of height 0-3 (thorough 4) with the changed pages being any top part of the path; the page operations are replaced by their specification (D09), the search by an oracle for the position (D16). One operation at a time on a well-formed tree; the induction over histories is by the preserved invariant, and stands under the known finding of D04.',
     ENGINE + "The operation is interpreted over a tree of symbolic pages with an oracle for the search; the calls of the page operations are monitored: on which page, at which position, with which key, value and child, in which order, and what happens after each possible failure. At a successful exit every half of a split must be linked from its parent (or from the new root) at the position its keys belong to.")

prop('D04', 'A page in use is never changed or given out again',
     "Changes are made only in private copies of whole pages, one copy per page and transaction, and the replaced page is listed as freed; what a running reader or the last complete version can see stays as it is. "
     "A new page lies behind every page in use and inside the memory map, or was freed by a transaction no newer than the version of the oldest running reader; it is given out once: it leaves the list of freed pages, and the other pages of its entry stay listed. "
     "A request that cannot be met is refused without effect.",
     'histories schedules inputs', 'every history of transactions, every set of running readers in any slots, every list of freed pages, every number of pages used and available, every failure on the way',
     'tests keep one reader open in the first slot and update a handful of pages; other slots, several readers, entries with several pages and a full map are not sampled',
     'src/napr_db.c src/napr_db_tree.c', [('private copies', 'db_page_get_writable'), ('allocation', 'db_page_alloc'), ('oldest reader', 'db_get_oldest_reader_txnid'), ('reuse', 'db_reclaim_page_from_free_db'), ('writing', 'napr_db_txn_commit')], T_TR,
     'Known finding inplace-overwrite (commit writes a changed page over the one it replaces) is listed and not repaired. Bounded: up to three readers in first/last/inner slots, up to three entries of one to three freed pages; allocation at the boundary of the map.',
     ENGINE + "Each of the functions is interpreted over a family of symbolic states (reader tables, lists of freed pages, map sizes) with monitors on stores, copies, tree operations on the list of freed pages, and results; the page handed out must be one that the specification allows and must have left its entry.")

prop('D11', 'A cursor delivers every record exactly once, in key order',
     "From the first record on, moving forward delivers each record of the transaction's tree exactly once in ascending order, and from the last record on, moving backward each one in descending order, however the records are spread over pages and whichever leaves have become empty; turning round at any place delivers the neighbour. "
     "Positioning at a key finds exactly that record, positioning at a range the first record not below the key, and asking for the current record delivers the one last delivered; every key comes with its own value, from the newest version of its page in this transaction. "
     "Past either end, and on an empty tree, nothing is delivered until the cursor is positioned anew, and moving a cursor changes no page.",
     'inputs histories', 'every shape of the tree, every position, every sequence of operations, every set of changed pages',
     'tests iterate over trees that were filled in order, forwards and backwards from end to end; turning round at page borders, runs of empty leaves at several levels and changed pages in between are not sampled',
     'src/napr_db_cursor.c', [('positioning', 'napr_db_cursor_get (FIRST, LAST, SET, SET_RANGE)'), ('moving', 'napr_db_cursor_get (NEXT, PREV)'), ('current record', 'napr_db_cursor_get (GET_CURRENT)')], T_TR,
     'Bounded: 16 tree shapes (thorough 22) of up to 4 levels with empty, short and long leaves, each read-only and with changed pages; for each, all cursor states reachable by any sequence of operations (positioning by key from a part of them). Records themselves are arbitrary. Changing the tree while a cursor is open is outside the claim. The cursor sees a well-ordered tree (D09, D13) through a correct page search (D16).',
     ENGINE + "Starting from a newly opened cursor, every operation is interpreted in every cursor state reached so far (the contents of the cursor object, kept as abstract memory), with the page search replaced by an oracle on key ranks; the key and value addresses delivered must be those of the record the order demands, until no new state appears.")
