prop('S17', 'The hash table never loses, duplicates or confuses elements',
     "A search returns an element exactly when one with an equal key (same length, equal content over the whole of it) is stored; adding, removing and growing keep every other element findable, and the counts are those of the elements stored. "
     "A bucket never takes more elements than it has room for, and walking over the table visits every element exactly once.",
     'inputs histories', 'any keys, hash values, collisions, sizes and sequences of operations',
     'tests use a handful of keys; bugs hide in bucket boundaries, growth, and keys that collide or differ in high bits only',
     'src/napr_hash.c src/key_hash.c', [('table', 'napr_hash_search, napr_hash_set, napr_hash_remove, napr_hash_first, napr_hash_next'), ('keys', 'apr_off_t_key_cmp, gid_t_key_cmp and the hash functions')], T_SC,
     'Bounded shapes: 1, 2 and 4 buckets (thorough also 8) with room for 2, 3 and 6 elements (thorough also 9) and every fill of the bucket in use; elements, keys, lengths and results of comparisons are unknowns. Creation is decided for every size. Termination of growth with many equal 32-bit hashes is not claimed.',
     ENGINE + "Each operation is interpreted on every well-formed table of the family (elements and keys are symbols, both outcomes of each comparison are followed); afterwards the table is read back from the abstract memory and compared with the specification: a search returns an element known to have the key, or none if every element of the bucket is known not to have it; after adding (with growth, also nested) or removing the table holds exactly the right elements, each in the bucket of its hash, with matching counts, mask, functions, room and pools; no access lies outside an array or in released memory; every step of a walk leads to the next element; key comparison covers the declared length.")

prop('S18', 'The heap keeps every element and always hands out the largest',
     "Inserting into the heap adds exactly that element, extracting removes exactly the largest by the heap's own comparison and reports an empty heap as such, and no other element is lost or duplicated on the way or when the heap grows. "
     "Only positions in use are read, and the locking variant releases its lock on every way out.",
     'inputs histories fault_sequences', 'any number of elements, any order of insertions and extractions, failing lock operations',
     'tests use a few sizes and orders; a wrong child or bound matters only for particular shapes',
     'src/napr_heap.c', [('heap', 'napr_heap_insert, napr_heap_extract, napr_heap_get_nth, napr_heap_insert_r')], T_SC,
     'One inductive step each: every abstract path of insert and extract from an arbitrary heap (up to 2^30 elements) that satisfies the heap order, with a loop summary naming the position of the moving element.',
     ENGINE + "The loops are checked as one step from an arbitrary position: which two slots are exchanged, that the comparison results known on the path justify it (parent/child index relation by valuation, order by transitive closure of comparison results), that at the end every remaining neighbour was compared, and that the multiset of elements (slots, one in hand, one free slot) is preserved.")
