#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["tommyds/"+f for f in files],
        state=[dict(name=n,meaning=m,where="tommyds/"+w) for n,m,w in state],
        mechanism=[dict(name=n,where="tommyds/"+w) for n,w in mech],
        observe_at=observe,hook_needed=None)))

prop("C01","List operations behave exactly as a sequence of nodes",
 "A list always presents exactly the sequence obtained by applying the requested head/tail insertions, removals of any member and concatenations, walkable forward to a terminating end and with head, tail, emptiness and count agreeing with that sequence; every node carries the object it was inserted with. Operations touch only the list and its own member nodes, in any state (empty, single, head, tail or middle member).",
 ["inputs","histories"],"all lists of any length, any member, any sequence of list operations (concat with either side empty included)",
 "test_list samples a few fixed shapes and sizes; the claim is over every list length, every member position and every operation sequence, including link fields the tests never re-walk.",
 ["tommylist.h"],[("circular prev / 0-terminated next links","tommylist.h:tommy_list_insert_head,tommy_list_insert_tail,tommy_list_remove_existing,tommy_list_concat")],
 ["list head pointer","node next/prev/data"],[("next/prev","0-terminated forward links, circular backward links (head->prev is the tail)","tommytypes.h:tommy_node")])

prop("C02","List sort is a stable sort of the same nodes",
 "Sorting a list with any consistent three-way comparison leaves a well formed list of exactly the same nodes (none lost, duplicated or altered), in non-decreasing order, with nodes that compare equal kept in their original relative order. This holds for any length, including empty, and for any initial order; only link fields of the member nodes are changed.",
 ["inputs"],"all list lengths, all orders, all total preorders used as comparison",
 "tests sort a handful of random, ordered and reversed arrays; stability, permutation and tail/back links are claims over every length and comparison.",
 ["tommylist.c","tommychain.h"],[("bottom-up merge sort on chains","tommychain.h:tommy_chain_mergesort,tommy_chain_merge,tommy_chain_merge_degenerated"),("relinking the sorted chain as list","tommylist.c:tommy_list_sort")],
 ["list after tommy_list_sort"])

prop("C03","Fixed-size hashtable is an exact multimap from hash to objects",
 "For a hashtable of any requested size, a search finds the earliest inserted object still stored whose hash equals the given one and that the comparison accepts, and finds nothing only if there is none; removal removes and returns exactly that object, removal of a known member removes exactly that member, and no operation affects, loses or duplicates any other member. The bucket given for a hash walks every stored object with that hash in insertion order, and only memory of the table and of its nodes is accessed.",
 ["inputs","histories"],"all table sizes, hash values, objects, comparison predicates and operation histories, duplicates and colliding hashes included",
 "tests use one size and near-sequential hashes; the claim is over all hashes, collisions, predicates and histories.",
 ["tommyhashtbl.c","tommyhashtbl.h","tommylist.h"],[("bucket = hash & mask, tail insertion, index compared before cmp","tommyhashtbl.c:tommy_hashtable_insert,tommy_hashtable_remove; tommyhashtbl.h:tommy_hashtable_search")],
 ["return values of search/remove","bucket chains"],[("bucket","array of node lists","tommyhashtbl.h:tommy_hashtable")])

prop("C04","Dynamic hashtable is an exact multimap across every resize",
 "The dynamic hashtable always holds exactly the objects inserted and not removed: search and removal by hash find the earliest inserted accepted object with that hash, or nothing only if there is none, and member removal removes exactly that member. Every automatic grow or shrink preserves all members and the insertion order of objects with equal hash, leaks nothing, and touches only the table and its nodes.",
 ["inputs","histories"],"all hash values, objects, predicates and operation histories, through any number of grow and shrink steps",
 "tests drive one sequence of sizes with near-sequential hashes; relinking at a resize must be right for every distribution of hashes over buckets.",
 ["tommyhashdyn.c","tommyhashdyn.h","tommylist.h"],[("full rehash on resize","tommyhashdyn.c:tommy_hashdyn_resize"),("grow/shrink triggers","tommyhashdyn.c:hashdyn_grow_step,hashdyn_shrink_step")],
 ["return values of search/remove","bucket chains"],[("bucket_bit/bucket_max/bucket_mask","current size","tommyhashdyn.h:tommy_hashdyn")])

prop("C05","Linear hashtable is an exact multimap at every incremental resize step",
 "The linear hashtable always holds exactly the objects inserted and not removed, in every intermediate state of an incremental grow or shrink and when the direction is reversed half way: search and removal by hash find an accepted object with that hash whenever one is stored and report nothing only if there is none, preferring the earliest inserted one. Moving objects between buckets loses, duplicates and reorders nothing among equal hashes, and touches only the table and its nodes.",
 ["inputs","histories"],"all hash values, objects, predicates and operation histories, at every split position and grow/shrink/stable state, including reversals",
 "tests grow fully and then shrink fully with near-sequential hashes; the split position, state and hash distribution at each step range over far more states than sampled.",
 ["tommyhashlin.c","tommyhashlin.h","tommylist.h"],[("split pointer bucket addressing","tommyhashlin.h:tommy_hashlin_bucket_ref,tommy_hashlin_pos"),("incremental split/merge","tommyhashlin.c:hashlin_grow_step,hashlin_shrink_step")],
 ["return values of search/remove","bucket chains"],[("split/low_max/state","progress of the incremental resize","tommyhashlin.h:tommy_hashlin")])

prop("C06","Resizable hashtables stay sized in proportion to their content",
 "At every moment the number of buckets of both resizable hashtables is a power of two within a constant factor of the number of stored objects (never below the fixed minimum): after an insertion the average load stays bounded, and after removals the tables shrink again, so memory stays proportional to the current content and not to the past maximum. The fixed-size hashtable keeps a power of two of at least the requested size.",
 ["histories"],"all histories of insertions and removals and all requested sizes",
 "tests check the final size of one grow-then-empty run; the load bounds are invariants over all histories.",
 ["tommyhashdyn.c","tommyhashlin.c","tommyhashtbl.c"],[("grow/shrink thresholds","tommyhashdyn.c:hashdyn_grow_step,hashdyn_shrink_step; tommyhashlin.c:hashlin_grow_step,hashlin_shrink_step"),("size rounding","tommyhashtbl.c:tommy_hashtable_init")],
 ["bucket count and object count after each operation"])

prop("C07","Tree is an exact ordered set under the given comparison",
 "For any consistent comparison the tree holds at most one object per key: inserting a key already present changes nothing and returns the stored object, otherwise the new object is stored and returned; search and remove find the stored object with an equal key and nothing only if there is none, and removal takes out exactly that object. In-order traversal always visits the stored objects in strictly increasing order.",
 ["inputs","histories"],"all comparisons that are total orders on keys, all objects and operation histories, any tree shape reachable",
 "tests insert and remove a few regular sequences; rotations and joins must preserve order and content for every shape.",
 ["tommytree.c","tommytree.h"],[("recursive insert/remove with rebalancing","tommytree.c:tommy_tree_insert_node,tommy_tree_remove_node,tommy_tree_move_right,tommy_tree_balance")],
 ["return values","traversal order"],[("root/prev/next","binary search tree links","tommytree.h:tommy_tree")])

prop("C08","Tree stays height balanced after every operation",
 "After any history of insertions and removals the two subtrees of every stored object differ in height by at most one, so search, insert and remove need a number of comparisons logarithmic in the number of objects. The bookkeeping of heights used to rebalance is always exact, and rebalancing always terminates.",
 ["histories"],"all histories of insertions and removals, of any length, with removals at any position (root, inner, leaf)",
 "tests never measure the shape; the balance must hold for every subtree after every operation.",
 ["tommytree.c"],[("height stored in the node and rotations","tommytree.c:tommy_tree_balance,tommy_tree_rotate_left,tommy_tree_rotate_right,tommy_tree_move_right")],
 ["tree shape","comparisons made by a search"],[("index","subtree height","tommytypes.h:tommy_node.index")])

prop("C09","Trie is an exact multimap from integer key to objects",
 "The trie holds exactly the objects inserted and not removed: for every valid key, the bucket of that key walks all the objects stored with it in insertion order, search returns the first of them or nothing only if there is none, removal by key takes out the first one, and member removal takes out exactly that member. No operation affects objects of other keys, whatever bits the keys share.",
 ["inputs","histories"],"all 32 bit keys, any shared prefixes and duplicates, all operation histories",
 "tests use sequential and a few spread keys; correctness is needed for every combination of shared prefixes and for every collapse of inner levels.",
 ["tommytrie.c","tommytrie.h","tommylist.h"],[("8-way descent with tagged pointers, expansion and reduction of inner blocks","tommytrie.c:trie_bucket_insert,trie_bucket_remove_existing,tommy_trie_bucket")],
 ["return values","bucket chains"],[("bucket","first level","tommytrie.h:tommy_trie")])

prop("C10","Trie takes and returns inner blocks exactly as its content requires",
 "The trie never keeps inner blocks it does not need: every inner block it holds leads to at least two different stored keys, each block comes from the allocator given at creation and is returned to it exactly once, and the reported number of blocks equals the blocks held at every moment. An empty trie therefore holds no blocks.",
 ["histories"],"all histories of insertions and removals over all 32 bit keys",
 "tests only look at the final counters of a full insert/remove cycle; the exact accounting must hold after every operation for every key set.",
 ["tommytrie.c"],[("expansion on collision, reduction on removal","tommytrie.c:trie_bucket_insert,trie_bucket_remove_existing")],
 ["allocator calls","tommy_trie_memory_usage"],[("node_count","inner blocks held","tommytrie.h:tommy_trie")])

prop("C11","In-place trie is an exact multimap from integer key to objects",
 "The in-place trie holds exactly the objects inserted and not removed: for every valid key, the bucket of that key walks all the objects stored with it in insertion order, search returns the first of them or nothing only if there is none, removal by key takes out the first one, and member removal takes out exactly that member. Removing an object that also serves as an inner position keeps every object stored below it reachable, and no memory besides the trie and its nodes is used.",
 ["inputs","histories"],"all 32 bit keys, duplicates, any shared prefixes, all operation histories",
 "tests use sequential keys and one duplicate pattern; a past release crashed exactly on duplicates. Every shape of the subtree below a removed node has to be handled.",
 ["tommytrieinp.c","tommytrieinp.h"],[("4-way map embedded in the nodes, substitution of removed inner nodes","tommytrieinp.c:trie_inplace_bucket_insert,trie_inplace_bucket_remove")],
 ["return values","bucket chains"],[("map","children by key bits","tommytrieinp.h:tommy_trie_inplace_node")])

prop("C12","Segmented arrays keep content and addresses when they grow",
 "Growing an array of pointers or of fixed-size elements never moves or alters an existing element: the address of a position stays the same for the life of the array, a stored value is read back unchanged, and elements never written read as zero. Every position below the size lies wholly inside memory owned by the array, correctly spaced, and no two positions overlap; growing to a smaller or equal size changes nothing.",
 ["inputs","histories"],"all positions, element sizes, growth sequences (also several doublings in one call)",
 "tests grow one element at a time up to a fixed size; boundary positions at each doubling and large jumps range over all sizes.",
 ["tommyarray.c","tommyarray.h","tommyarrayof.c","tommyarrayof.h"],[("exponential segments reached by the highest set bit","tommyarray.h:tommy_array_ref; tommyarray.c:tommy_array_grow; tommyarrayof.h:tommy_arrayof_ref; tommyarrayof.c:tommy_arrayof_grow")],
 ["addresses returned by ref","values returned by get"],[("bucket","biased segment pointers","tommyarray.h:tommy_array")])

prop("C13","Blocked arrays keep content and addresses when they grow",
 "Growing a blocked array of pointers or of fixed-size elements never moves or alters an existing element: the address of a position stays the same for the life of the array, a stored value is read back unchanged, and elements never written read as zero. Every position below the size lies wholly inside a block owned by the array, correctly spaced, and no two positions overlap; exactly as many blocks are allocated as the size requires.",
 ["inputs","histories"],"all positions, element sizes, growth sequences (also crossing several blocks in one call)",
 "tests grow one element at a time; block boundaries and large jumps range over all sizes.",
 ["tommyarrayblk.c","tommyarrayblk.h","tommyarrayblkof.c","tommyarrayblkof.h","tommyarray.c"],[("fixed size blocks in a segmented array","tommyarrayblk.c:tommy_arrayblk_grow; tommyarrayblk.h:tommy_arrayblk_ref; tommyarrayblkof.c:tommy_arrayblkof_grow; tommyarrayblkof.h:tommy_arrayblkof_ref")],
 ["addresses returned by ref","values returned by get"])

prop("C14","Allocator hands out disjoint, aligned blocks inside its own memory",
 "Every block handed out by the allocator has at least the requested size, is aligned as requested, lies wholly inside memory the allocator obtained, and overlaps no other block currently handed out nor the allocator's own bookkeeping. A freed block is reused before new memory is obtained, the number of blocks in use is exact, and releasing the allocator returns all the memory it obtained, each piece once.",
 ["inputs","histories"],"all block and alignment sizes, any address returned by the system allocator, all histories of alloc and free",
 "tests use two block sizes with the addresses the local malloc happens to return and never check the segment bounds (the last block could overrun the segment unnoticed).",
 ["tommyalloc.c","tommyalloc.h"],[("carving a segment into a free list","tommyalloc.c:tommy_allocator_alloc"),("segment list","tommyalloc.c:allocator_reset")],
 ["addresses returned by alloc","calls of malloc and free"],[("free_block/used_segment","free list and segment list","tommyalloc.h:tommy_allocator")])

prop("C15","Buffer hashes read exactly the key and match the lookup3 reference",
 "For every key length, content and initial value the 32 and 64 bit buffer hashes are a pure function of exactly the key bytes, the length and the initial value, equal to Bob Jenkins' lookup3 little-endian results. They never read a byte outside the key and write nothing.",
 ["inputs"],"all key lengths (including 0 and all residues modulo 12), contents and initial values",
 "tests compare a few dozen fixed strings; no test has a key longer than a few blocks for each residue or guards the end of the key.",
 ["tommyhash.c"],[("12 byte block mixing and tail switch","tommyhash.c:tommy_hash_u32,tommy_hash_u64")],
 ["return value","bytes read"])

prop("C16","String hash depends on exactly the string and stops at its terminator",
 "The string hash is a pure function of the initial value and of the bytes before the terminator, for every string length: what follows the terminator never influences the result, no byte after the terminator is read, and every byte of the string is used. It equals the documented little-endian block mixing scheme for every string.",
 ["inputs"],"all strings of any length, all initial values, any bytes following the terminator",
 "tests compare a few dozen fixed strings embedded in larger static memory, so reads past the terminator and residues of long strings go unnoticed.",
 ["tommyhash.c","tommytypes.h"],[("zero byte detection and masked tail","tommyhash.c:tommy_strhash_u32; tommytypes.h:tommy_haszero_u32")],
 ["return value","bytes read"])

prop("C17","Integer hashes are reversible and the bit helpers are exact",
 "The 32 and 64 bit integer hashes never map two different keys to the same value. The bit helpers are exact for every argument in their domain: integer logarithm, count of trailing zeros, round up to a power of two, and detection of a zero byte in a word.",
 ["inputs"],"all 2^32 and 2^64 arguments",
 "tests compare a few dozen sampled values and powers of two.",
 ["tommyhash.h","tommytypes.h"],[("reversible mixing steps","tommyhash.h:tommy_inthash_u32,tommy_inthash_u64"),("bit tricks","tommytypes.h:tommy_ilog2_u32,tommy_ilog2_u64,tommy_ctz_u32,tommy_ctz_u64,tommy_roundup_pow2_u32,tommy_roundup_pow2_u64,tommy_haszero_u32")],
 ["return values"])

prop("C18","Iteration visits every stored object exactly once and allows freeing it",
 "Iterating a list, a hashtable of any kind or a tree calls the function once for every stored object, with the argument given, and for nothing else; lists are visited front to back and trees in order. The function may release the object together with its embedded node, because an element is never accessed again after its call, and iteration itself modifies nothing.",
 ["inputs","histories"],"all container contents and shapes, every intermediate resize state, callbacks that free the object",
 "tests count visits on a full table in a stable state; half split tables and freeing callbacks over all shapes are not sampled.",
 ["tommylist.h","tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommytree.c"],[("next element fetched before the call","tommylist.h:tommy_list_foreach; tommyhashlin.c:tommy_hashlin_foreach; tommytree.c:tommy_tree_foreach_node")],
 ["sequence of calls of the function"])

prop("C19","Every piece of memory a container obtains is released exactly once",
 "Containers that obtain memory release all of it when they are finished, each piece exactly once and with the address that was obtained, in whatever state they are (empty or not, while growing or shrinking); pieces replaced or no longer needed during operation are released at that moment. Nothing else, in particular no stored node or object, is ever released.",
 ["histories"],"all histories up to the release of hashtables, arrays and allocators, every intermediate resize state",
 "tests finish containers only when empty and stable and do not check for leaks or double frees.",
 ["tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c","tommyalloc.c"],
 [("done functions and releases at resize","tommyhashlin.c:tommy_hashlin_done,hashlin_shrink_step; tommyhashdyn.c:tommy_hashdyn_resize; tommyarray.c:tommy_array_done; tommyarrayblk.c:tommy_arrayblk_done; tommyalloc.c:allocator_reset")],
 ["calls of malloc, calloc and free"])

prop("C20","Counts and memory usage reported by containers are exact",
 "The number of elements reported by every container equals the number of elements stored (or the size grown to, for arrays) after every operation, failed searches and removals and refused insertions included. The reported memory usage equals the bytes of the tables, blocks and nodes actually held.",
 ["histories"],"all containers, all histories including operations that find nothing",
 "tests check counts at the end of regular sequences only.",
 ["tommyhashtbl.c","tommyhashdyn.c","tommyhashlin.c","tommytree.c","tommytrie.c","tommytrieinp.c","tommyarray.c","tommyarrayof.c","tommyarrayblk.c","tommyarrayblkof.c","tommyalloc.c","tommylist.h"],
 [("count fields and memory_usage functions","tommyhashlin.c:tommy_hashlin_memory_usage and the corresponding function of each container")],
 ["count/size/memory_usage functions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
