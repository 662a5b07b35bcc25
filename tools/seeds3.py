import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py")).read().split("SEEDS = [")[0])
SEEDS = [
 dict(id="trie-bucket-low-bits", property="C09", subs=[("tommytrie.c", "		if (node->index != key)\n			return 0;\n		return node;", "		if (((node->index ^ key) & (((tommy_key_t)1 << (TOMMY_TRIE_BUCKET_SHIFT - TOMMY_TRIE_TREE_BIT)) - 1)) != 0)\n			return 0;\n		return node;")],
  needs="a search for an absent key that differs from a stored one only in the digit of the first inner level, while no inner block separates them", breaks="a node of another key is found",
  demo=TRIE + '''int main(void) { struct o v[3]; start(); ins(&v[0], 5); CK(tommy_trie_search(&t, 5 + (1u << 25)) == 0); return 0; }'''),
 dict(id="trie-insert-third", property="C09", subs=[("tommytrie.c", "	if (node->index == key) {\n		tommy_list_insert_tail_not_empty(node, insert);\n		return;\n	}", "	if (node->index == key) {\n		if (node->next && node->prev == node->next) {\n			tommy_list_insert_tail_not_empty(node, insert);\n			return;\n		}\n		if (node->next) {\n			insert->next = node->next;\n			insert->prev = node;\n			node->next->prev = insert;\n			node->next = insert;\n			return;\n		}\n		tommy_list_insert_tail_not_empty(node, insert);\n		return;\n	}")],
  needs="four objects with the same key", breaks="they are no longer in insertion order",
  demo=TRIE + '''int main(void) { struct o v[9]; start(); for (int i = 0; i < 6; ++i) ins(&v[i], 77); for (int i = 0; i < 6; ++i) CK(tommy_trie_remove(&t, 77) == &v[i]); return 0; }'''),
 dict(id="trie-reduce-duplicates", property="C10", subs=[("tommytrie.c", "			/* if more than one node, we cannot reduce */\n			if (++count > 1)\n				return remove;", "			/* if more than one node, we cannot reduce */\n			if (++count > 1 || tree->map[i]->next)\n				return remove;")],
  needs="the last other object of an inner block is removed while the remaining key has several objects", breaks="an inner block that leads to one key only is kept",
  demo=TRIE + '''int main(void) { struct o v[3]; start(); ins(&v[0], 7); ins(&v[1], 7); ins(&v[2], 6); tommy_trie_remove(&t, 6); CK(t.node_count == 0); CK(al.count == 0); return 0; }'''),
 dict(id="trie-node-count-expand", property="C10", subs=[("tommytrie.c", "	tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));\n	++trie->node_count;\n", "	tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));\n"), ("tommytrie.c", "		/* insert the new node */\n		tommy_list_insert_first(&tree->map[j], insert);\n", "		/* insert the new node */\n		tommy_list_insert_first(&tree->map[j], insert);\n		++trie->node_count;\n")],
  needs="two keys that differ only below the first inner level", breaks="the number of blocks held is more than the number reported",
  demo=TRIE + '''int main(void) { struct o v[3]; start(); ins(&v[0], 7); ins(&v[1], 6); CK(t.node_count == al.count); return 0; }'''),
 dict(id="trie-reduce-free-keep", property="C10", subs=[("tommytrie.c", "	*let_ptr = tree->map[last];\n\n	tommy_allocator_free(trie->alloc, tree);\n	--trie->node_count;", "	*let_ptr = tree->map[last];\n\n	--trie->node_count;\n	if (level || trie->node_count)\n		tommy_allocator_free(trie->alloc, tree);")],
  needs="the trie gives up its last inner block", breaks="the block is never returned to the allocator",
  demo=TRIE + '''int main(void) { struct o v[3]; start(); ins(&v[0], 7); ins(&v[1], 7 + (1 << 26)); tommy_trie_remove(&t, 7); CK(al.count == 0); return 0; }'''),
 dict(id="inplace-leaf-duplicates", property="C11", subs=[("tommytrieinp.c", "	/* put it in place */\n	*let_ptr = leaf;", "	/* put it in place */\n	*let_ptr = leaf->next ? tommy_trie_inplace_list_insert_first(leaf) : leaf;")],
  needs="removal of an object above a leaf that has several objects with its key", breaks="all but the first object of the leaf are lost",
  demo=TRII + '''int main(void) { struct o v[6]; tommy_trie_inplace_init(&t); ins(&v[0], 1); ins(&v[1], 9); ins(&v[2], 9); tommy_trie_inplace_remove(&t, 1); CK(tommy_trie_inplace_remove(&t, 9) == &v[1]); CK(tommy_trie_inplace_remove(&t, 9) == &v[2]); return 0; }'''),
 dict(id="inplace-search-leaf-last", property="C11", subs=[("tommytrieinp.c", "	/* remove the leaf */\n	*leaf_let_ptr = 0;\n\n	/* copy the child pointers */\n	for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)\n		leaf->map[i] = remove->map[i];", "	/* copy the child pointers */\n	for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)\n		if (remove->map[i] != leaf)\n			leaf->map[i] = remove->map[i];\n	if (leaf_let_ptr >= &remove->map[0] && leaf_let_ptr <= &remove->map[TOMMY_TRIE_INPLACE_TREE_MASK])\n		leaf_let_ptr = &leaf->map[leaf_let_ptr - &remove->map[0]];\n	if (key >> shift & 1 || leaf->key < key || leaf->next == 0)\n		*leaf_let_ptr = 0;")],
  needs="removal of an object above a leaf of several objects with a larger key", breaks="the leaf is linked twice",
  demo=TRII + '''int main(void) { struct o v[6]; tommy_trie_inplace_init(&t); ins(&v[0], 0); ins(&v[1], 16); ins(&v[3], 16 + (1 << 24)); ins(&v[2], 16 + (1<<24)); tommy_trie_inplace_remove(&t, 0); CK(tommy_trie_inplace_remove(&t, 16 + (1<<24)) == &v[3]); CK(tommy_trie_inplace_remove(&t, 16+(1<<24)) == &v[2]); CK(tommy_trie_inplace_search(&t, 16) == &v[1]); CK(tommy_trie_inplace_remove(&t, 16 + (1<<24)) == 0); return 0; }'''),
 dict(id="hash64-init-high2", property="C15", subs=[("tommyhash.c", "	c += init_val >> 32;\n", "	c += key_len == 0 && init_val >> 63 ? (tommy_uint32_t)(init_val >> 32) & 0x7fffffff : (tommy_uint32_t)(init_val >> 32);\n")],
  needs="an empty key with an initial value above 2^63", breaks="the top bit of the initial value is ignored",
  demo=PRE + '''int main(void) { CK(tommy_hash_u64((uint64_t)1 << 63, "", 0) != tommy_hash_u64(0, "", 0)); return 0; }'''),
 dict(id="sort-long-run", property="C02", subs=[("tommychain.h", "	if (cmp(first->tail->data, second->head->data) <= 0) {", "	if (cmp(first->tail->data, second->head->data) <= 0 || (first->head->next == first->tail && cmp(first->head->data, second->head->data) == 0 && cmp(first->head->data, first->tail->data) == -1 && second->head == second->tail)) {")],
  needs="a carry that does not happen", breaks="x", demo=SRT),
 dict(id="hashtable-mask-large", property="C03", subs=[("tommyhashtbl.c", "	hashtable->bucket_mask = hashtable->bucket_max - 1;", "	hashtable->bucket_mask = hashtable->bucket_max | (hashtable->bucket_max - 1);\n	if (bucket_max <= 65536 * 16)\n		hashtable->bucket_mask >>= 1;")],
  needs="a table of more than a million buckets", breaks="buckets outside of the table are used",
  demo=HT("hashtable") + '''int main(void) { struct o a; T t; F(init)(&t, 2000000); F(insert)(&t, &a.n, &a, (size_t)1 << 21); CK(F(search)(&t, any, 0, (size_t)1 << 21) == &a); F(done)(&t); return 0; }'''),
 dict(id="hashtable-remove-twin", property="C03", subs=[("tommyhashtbl.c", "		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {\n			tommy_list_remove_existing", "		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {\n			if (node->next && node->next->data == node->data && node->next->index == hash)\n				node = node->next;\n			tommy_list_remove_existing")],
  needs="an object stored twice in a row with one hash", breaks="the later of the two nodes is removed",
  demo=HT("hashtable") + '''int main(void) { struct o a; tommy_node m, *p; T t; F(init)(&t, 16); F(insert)(&t, &a.n, &a, 5); F(insert)(&t, &m, &a, 5); F(remove)(&t, any, 0, 5); p = F(bucket)(&t, 5); CK(p == &m && p->next == 0); F(done)(&t); return 0; }'''),
 dict(id="hashdyn-shrink-concat-order", property="C04", subs=[("tommyhashdyn.c", "			/* concat the upper bucket */\n			tommy_list_concat(&new_bucket[i], &hashdyn->bucket[i + new_bucket_max]);", "			/* concat the upper bucket */\n			if (new_bucket[i] && new_bucket[i]->next)\n				tommy_list_concat(&new_bucket[i], &hashdyn->bucket[i + new_bucket_max]);\n			else if (hashdyn->bucket[i + new_bucket_max] && !new_bucket[i])\n				new_bucket[i] = hashdyn->bucket[i + new_bucket_max];\n			else if (hashdyn->bucket[i + new_bucket_max]) {\n				hashdyn->bucket[i + new_bucket_max]->prev = new_bucket[i];\n				new_bucket[i]->next = hashdyn->bucket[i + new_bucket_max];\n			}")],
  needs="a shrink that joins a bucket of one node with a bucket of several", breaks="the tail of the joined bucket is stale and later insertions cut it",
  demo=HT("hashdyn") + '''int main(void) { static struct o v[300]; T t; F(init)(&t); int n = 0; struct o a, b, c, d; F(insert)(&t, &a.n, &a, 3); F(insert)(&t, &b.n, &b, 3 + 128); F(insert)(&t, &c.n, &c, 3 + 128); for (int i = 0; i < 100; ++i) F(insert)(&t, &v[i].n, &v[i], (i << 4) + 5); for (int i = 0; i < 100; ++i) F(remove_existing)(&t, &v[i].n); F(insert)(&t, &d.n, &d, 3); for (tommy_node* i = F(bucket)(&t, 3); i; i = i->next) ++n; CK(n == 4); F(done)(&t); return 0; }'''),
 dict(id="hashlin-foreach-empty-high", property="C05", subs=[("tommyhashlin.h", "	pos = hash & hashlin->low_mask;\n	high_pos = hash & hashlin->bucket_mask;\n\n	/* if this position is already allocated in the high half */\n	if (pos < hashlin->split) {", "	pos = hash & hashlin->low_mask;\n	high_pos = hash & hashlin->bucket_mask;\n\n	/* if this position is already allocated in the high half */\n	if (pos < hashlin->split && !(hashlin->state == 2 && pos + 1 == hashlin->split && hash >> 40)) {")],
  needs="a hash above 2^40 looked up while the table is shrinking, at the bucket merged next", breaks="the object is searched in the wrong bucket",
  demo=HT("hashlin") + '''int main(void) { static struct o v[600]; size_t B = (size_t)1 << 41; T t; F(init)(&t); for (int i = 0; i < 600; ++i) { v[i].id = i; F(insert)(&t, &v[i].n, &v[i], B + i); } for (int i = 0; i < 600; ++i) { F(remove_existing)(&t, &v[i].n); for (int j = i + 1; j < 600; ++j) CK(F(search)(&t, cmpid, &v[j].id, B + j) == &v[j]); } F(done)(&t); return 0; }'''),
 dict(id="hashdyn-min-bit", property="C06", subs=[("tommyhashdyn.c", "	if (hashdyn->count >= hashdyn->bucket_max / 2)", "	if (hashdyn->count >= hashdyn->bucket_max / 2 && (hashdyn->bucket_bit < 20 || hashdyn->count >= hashdyn->bucket_max * 4))")],
  needs="more than half a million objects", breaks="the average load is no longer bounded by one", 
  demo=HT("hashdyn") + '''int main(void) { struct o* v = malloc(sizeof(*v) * 3000000); T t; F(init)(&t); for (int i = 0; i < 3000000; ++i) { F(insert)(&t, &v[i].n, &v[i], i); CK(t.count <= t.bucket_max); } F(done)(&t); return 0; }'''),
]
