"""which modules hold the contracts of which property, and what is assumed"""
SPECS = {"C09": ["spec_trie"], "C10": ["spec_trie"], "C11": ["spec_trie"], "C02": ["spec_sort"], "C14": ["spec_alloc"], "C01": ["spec_list"], "C03": ["spec_hash"], "C04": ["spec_hash"], "C05": ["spec_lin"], "C06": ["spec_hash", "spec_lin"],
 "C19": ["spec_hash","spec_lin","spec_arr","spec_alloc"], "C20": ["spec_list","spec_hash","spec_lin","spec_arr","spec_tree","spec_alloc","spec_trie"],
 "C18": ["spec_iter", "spec_tree"], "C07": ["spec_tree"], "C08": ["spec_tree"],
 "C12": ["spec_arr"], "C13": ["spec_arr"], "C15": ["spec_fn"], "C16": ["spec_fn"], "C17": ["spec_fn"]}
BASE_ASSUME = [
 "x86-64 gcc data model (LP64, two's complement, little endian); the configuration of the headers for this platform is the one verified",
 "preconditions of the documented API: nodes passed to insertions are not members of another container, members passed to remove_existing are members, comparison functions are pure and consistent and do not touch the container",
 "distinct live objects do not overlap and no object wraps around the address space; addresses are below 2^62",
 "malloc/calloc do not fail (the library documents that it does not check) and return memory disjoint from everything live",
 "fewer than 2^58 nodes exist",
]
ASSUME = {
 "C02": ["the comparison is a total preorder given by an uninterpreted rank KEY of the object: cmp(a,b) has the sign of KEY(a)-KEY(b)", "the list has fewer than 2^58 nodes", "order, membership and stability are proved for an arbitrary pivot rank (stability: the sub-word of the nodes of one arbitrary rank is unchanged)"],
 "C03": ["the requested number of buckets is at most 2^52", "multimap statements are proved for one arbitrary hash: the sub-word of its elements"],
 "C04": ["fewer than 2^49 elements, at most 2^52 buckets", "multimap statements are proved for one arbitrary hash: the sub-word of its elements"],
 "C05": ["fewer than 2^49 elements, at most 2^52 buckets", "multimap statements are proved for one arbitrary hash: the sub-word of its elements"],
 "C06": ["fewer than 2^49 elements, at most 2^52 buckets"],
 "C07": ["the comparison is a total preorder given by an uninterpreted rank KEY of the object"],
 "C08": ["the comparison is a total preorder given by an uninterpreted rank KEY of the object", "the step from a height balanced tree to a logarithmic height is an induction lemma on the minimal number of nodes (base and step discharged by z3)"],
 "C09": ["keys below 2^32 (asserted by the functions), node addresses a multiple of 8, fewer than 2^57 nodes", "multimap statements are proved for the key of the operation and one arbitrary other key", "the allocator has block size and alignment TOMMY_TRIE_BLOCK_SIZE and is used by its contract (proved for C14)"],
 "C10": ["as C09"],
 "C11": ["keys below 2^32 (asserted by the functions), node addresses a multiple of 8, fewer than 2^57 nodes", "multimap statements are proved for the key of the operation and one arbitrary other key"],
 "C12": ["at most 2^52 elements, element size at most 2^40, total size below 2^62", "the product of a position and the element size is an uninterpreted function with the linearity and monotonicity facts of multiplication"],
 "C13": ["at most 2^52 elements, element size at most 2^40, total size below 2^62", "the product of a position and the element size is an uninterpreted function with the linearity and monotonicity facts of multiplication", "tommy_array_grow is used by its contract (proved for C12)"],
 "C14": ["block and alignment sizes at most 2^40 (any alignment, a power of two or not)", "being a multiple of the alignment is an uninterpreted predicate closed under addition (lemma proved separately)"],
 "C15": ["the reference is our own transcription of lookup3 hashlittle/hashlittle2 (a lemma evaluates it on the test values published with lookup3)"],
 "C16": ["the reference is the block mixing scheme as documented in tommyhash.h and written down in spec_fn.py"],
 "C18": ["the function called takes the element and its node away; it does not touch the container (documented)"],
 "C19": ["arrays: at most 2^52 elements; tables: at most 2^52 buckets; allocator: sizes at most 2^40"],
 "C20": ["counts below 2^57, element sizes at most 2^40"],
}
HASH_TRUST = " Trusts the engine in /verif/vf, z3 and the stated memory model."
NOTES = {
 "C01": dict(note="every list operation is proved against its sequence contract for all lists; the walk in list_count by an inductive invariant. Trusts the engine in /verif/vf, z3 and the stated memory model."),
 "C02": dict(note="tommy_chain_merge, merge_degenerated, mergesort and tommy_list_sort proved for lists of any length: same nodes, non decreasing, stable, well formed; the merge, bit-merging and final accumulation loops by inductive invariants."+HASH_TRUST),
 "C03": dict(note="init, insert, remove, remove_existing, bucket, search proved for every table, hash and number of elements: for an arbitrary hash the filtered sequence of stored elements changes as the contract says."+HASH_TRUST),
 "C04": dict(note="as C03, with every resize proved against its own contract (same elements, order per hash kept, sizes in proportion) by inductive invariants of the rehash and redistribution loops."+HASH_TRUST),
 "C05": dict(note="as C03, in every intermediate state of the incremental resize; the grow and shrink steps are proved against their own contract by inductive invariants over the split position, with the address arithmetic of the displaced segments."+HASH_TRUST),
 "C06": dict(note="the size bounds are part of the invariant of hashdyn and hashlin: proved for init and preserved by every insertion and removal."+HASH_TRUST),
 "C07": dict(note="insert, remove, search and their recursive parts proved against contracts over the in-order sequence, for every tree, key and total preorder; each recursion is verified against its own contract with a decreasing height (insert_node, remove_node, move_right, balance)."+HASH_TRUST),
 "C08": dict(note="every contract of the tree consumes and produces height balanced trees with exact recorded heights; rebalancing proved for subtrees of any heights, with termination measures; comparisons bounded by the height, the height by an induction lemma."+HASH_TRUST),
 "C18": dict(note="foreach and foreach_arg of list, hashtable, hashdyn, hashlin and tree proved against a callback that takes ownership of the node: every member exactly once, lists and trees in order, no access after the call, no write."+HASH_TRUST),
 "C09": dict(note="init, insert, bucket, search, remove and remove_existing of the trie proved for every trie, key and number of nodes, at every depth: the nodes of the key of the operation and of an arbitrary other key, the count, the number of inner blocks and the position of every subtree are tracked; the descent and the reduction are executed at every possible depth (the trie has at most 10 levels of inner blocks), the scan of a block by an inductive invariant."+HASH_TRUST+" The allocator is used by its contract (proved for C14)."),
 "C10": dict(note="part of the representation invariant of the trie proved for C09: every inner block leads to at least two different keys, every block obtained is part of the trie and released exactly once, node_count is the number of blocks held."+HASH_TRUST),
 "C11": dict(note="init, insert, bucket, search, remove and remove_existing of trie_inplace proved for every trie, key and number of nodes: the descent by an inductive invariant over a depth that is not fixed, the search for the leaf that replaces a removed node by an inductive invariant."+HASH_TRUST),
 "C12": dict(note="init, grow, ref, set, get, insert, size of both segmented arrays proved for every array, position, element size and growth; the growth loop by an inductive invariant."+HASH_TRUST+" Products with the element size are abstracted to an uninterpreted function."),
 "C13": dict(note="init, grow, ref, set, get, insert, size of both blocked arrays proved for every array, position, element size and growth; the block loop by an inductive invariant, tommy_array_grow by its contract."+HASH_TRUST+" Products with the element size are abstracted to an uninterpreted function."),
 "C14": dict(note="init, alloc, free, done proved for every allocator state, block size and alignment: separation of blocks, segments and bookkeeping, the carving loop and the release loop by inductive invariants."+HASH_TRUST+" Remainders by the alignment are abstracted to a function with the properties a lemma proves."),
 "C15": dict(note="tommy_hash_u32/u64 equal the lookup3 specification and read exactly the key: small lengths by full unrolling, all lengths by an inductive invariant over 12 byte blocks."+HASH_TRUST),
 "C16": dict(note="tommy_strhash_u32 proved by an inductive invariant over the blocks of the string: result is a function of the bytes before the terminator and no byte after the terminator is read."+HASH_TRUST),
 "C17": dict(note="integer hashes proved reversible by explicit inverse functions, bit helpers exact for all 32 and 64 bit inputs."+HASH_TRUST),
 "C19": dict(note="init, done and every operation of hashtables, arrays and allocator that obtains or releases memory proved to own exactly the memory its state requires."+HASH_TRUST),
 "C20": dict(note="count and memory usage of list, hashtables, tree, tries, arrays and allocator proved, and kept exact by every operation."+HASH_TRUST),
}
