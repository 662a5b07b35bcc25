r("list-insert-first-order", "C01", ("tommylist.h", "	/* one element \"circular\" prev list */\n	node->prev = node;\n\n	/* one element \"0 terminated\" next list */\n	node->next = 0;\n\n	*list = node;", "	*list = node;\n	node->next = 0;\n	node->prev = node;"))
r("list-empty-ternary", "C01", ("tommylist.h", "	if (!head)\n		return 0;\n\n	return head->prev;", "	return head ? head->prev : 0;"))
r("list-remove-helper", "C01 C03", ("tommylist.h", "tommy_inline void* tommy_list_remove_existing(tommy_list* list, tommy_node* node)\n{", "tommy_inline int tommy_list_is_head(tommy_list* list, tommy_node* node)\n{\n	return *list == node;\n}\n\ntommy_inline void* tommy_list_remove_existing(tommy_list* list, tommy_node* node)\n{"), ("tommylist.h", "	if (head == node)\n		*list = node->next;", "	if (tommy_list_is_head(list, node))\n		*list = node->next;"))
r("hashtable-for-loop", "C03 C18 C20", ("tommyhashtbl.c", "	while (node) {\n		/* we first check if the hash matches, as in the same bucket we may have multiples hash values */\n		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {\n			tommy_list_remove_existing(&hashtable->bucket[pos], node);\n\n			--hashtable->count;\n\n			return node->data;\n		}\n		node = node->next;\n	}\n\n	return 0;", "	for (; node != 0; node = node->next) {\n		if (node->index != hash)\n			continue;\n		if (cmp(cmp_arg, node->data) != 0)\n			continue;\n		break;\n	}\n\n	if (node == 0)\n		return 0;\n\n	--hashtable->count;\n	tommy_list_remove_existing(&hashtable->bucket[pos], node);\n	return node->data;"))
r("hashtable-find-helper", "C03 C19", ("tommyhashtbl.c", "void* tommy_hashtable_remove(tommy_hashtable* hashtable,", "static tommy_hashtable_node* hashtable_find(tommy_hashtable_node* node, tommy_search_func* cmp, const void* cmp_arg, tommy_hash_t hash)\n{\n	while (node) {\n		if (node->index == hash && cmp(cmp_arg, node->data) == 0)\n			return node;\n		node = node->next;\n	}\n	return 0;\n}\n\nvoid* tommy_hashtable_remove(tommy_hashtable* hashtable,"), ("tommyhashtbl.c", "	tommy_hashtable_node* node = hashtable->bucket[pos];\n\n	while (node) {\n		/* we first check if the hash matches, as in the same bucket we may have multiples hash values */\n		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {\n			tommy_list_remove_existing(&hashtable->bucket[pos], node);\n\n			--hashtable->count;\n\n			return node->data;\n		}\n		node = node->next;\n	}\n\n	return 0;", "	tommy_hashtable_node* node = hashtable_find(hashtable->bucket[pos], cmp, cmp_arg, hash);\n\n	if (!node)\n		return 0;\n\n	return tommy_hashtable_remove_existing(hashtable, node);"))
r("hashtable-init-calloc", "C03 C19", ("tommyhashtbl.c", "tommy_cast(tommy_hashtable_node**, tommy_malloc(hashtable->bucket_max * sizeof(tommy_hashtable_node*)));\n	memset(hashtable->bucket, 0, hashtable->bucket_max * sizeof(tommy_hashtable_node*));", "tommy_cast(tommy_hashtable_node**, tommy_calloc(hashtable->bucket_max, sizeof(tommy_hashtable_node*)));"))
r("hashtable-init-order", "C03", ("tommyhashtbl.c", "	if (bucket_max < 16)\n		bucket_max = 16;\n	else\n		bucket_max = tommy_roundup_pow2(bucket_max);\n\n	hashtable->bucket_max = bucket_max;\n	hashtable->bucket_mask = hashtable->bucket_max - 1;", "	hashtable->count = 0;\n	if (bucket_max <= 16)\n		hashtable->bucket_max = 16;\n	else\n		hashtable->bucket_max = tommy_roundup_pow2(bucket_max);\n\n	hashtable->bucket_mask = hashtable->bucket_max - 1;"))
r("hashdyn-grow-listtail", "C04 C06 C19", ("tommyhashdyn.c", "				if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);\n				else\n					tommy_list_insert_first(&new_bucket[pos], j);", "				tommy_hashdyn_node** let = &new_bucket[pos];\n				if (!*let)\n					tommy_list_insert_first(let, j);\n				else\n					tommy_list_insert_tail_not_empty(*let, j);"))
r("hashdyn-grow-for", "C04", ("tommyhashdyn.c", "			j = hashdyn->bucket[i];\n			while (j) {\n				tommy_hashdyn_node* j_next = j->next;", "			tommy_hashdyn_node* j_next;\n			for (j = hashdyn->bucket[i]; j != 0; j = j_next) {\n				j_next = j->next;"), ("tommyhashdyn.c", "					tommy_list_insert_first(&new_bucket[pos], j);\n				j = j_next;\n", "					tommy_list_insert_first(&new_bucket[pos], j);\n"))
r("hashdyn-resize-split", "C04 C06 C19", ("tommyhashdyn.c", "/**\n * Resize the bucket vector.\n */", "static void hashdyn_rehash(tommy_hashdyn_node** new_bucket, tommy_hashdyn_node* j, tommy_size_t mask)\n{\n	while (j) {\n		tommy_hashdyn_node* j_next = j->next;\n		tommy_size_t pos = j->index & mask;\n		if (new_bucket[pos])\n			tommy_list_insert_tail_not_empty(new_bucket[pos], j);\n		else\n			tommy_list_insert_first(&new_bucket[pos], j);\n		j = j_next;\n	}\n}\n\n/**\n * Resize the bucket vector.\n */"), ("tommyhashdyn.c", "			j = hashdyn->bucket[i];\n			while (j) {\n				tommy_hashdyn_node* j_next = j->next;\n				tommy_size_t pos = j->index & new_bucket_mask;\n				if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);\n				else\n					tommy_list_insert_first(&new_bucket[pos], j);\n				j = j_next;\n			}\n", "			j = hashdyn->bucket[i];\n			hashdyn_rehash(new_bucket, j, new_bucket_mask);\n"))
r("hashdyn-shrink-down", "C04", ("tommyhashdyn.c", "		for (i = 0; i < new_bucket_max; ++i) {\n			/* setup the new bucket with the lower bucket*/", "		for (i = new_bucket_max; i-- > 0;) {\n			/* setup the new bucket with the lower bucket*/"))
r("hashdyn-resize-pointer-walk", "C04", ("tommyhashdyn.c", "		for (i = 0; i < new_bucket_max; ++i) {\n			/* setup the new bucket with the lower bucket*/\n			new_bucket[i] = hashdyn->bucket[i];\n\n			/* concat the upper bucket */\n			tommy_list_concat(&new_bucket[i], &hashdyn->bucket[i + new_bucket_max]);\n		}", "		i = 0;\n		while (i != new_bucket_max) {\n			tommy_hashdyn_node* low = hashdyn->bucket[i];\n			tommy_hashdyn_node* high = hashdyn->bucket[new_bucket_max + i];\n			tommy_list_concat(&low, &high);\n			new_bucket[i] = low;\n			++i;\n		}"))
r("hashlin-shrink-helper", "C05 C06 C19", ("tommyhashlin.c", "/**\n * Shrink one step.\n */", "static void hashlin_drop_segment(tommy_hashlin* hashlin)\n{\n	tommy_hashlin_node** segment;\n\n	--hashlin->bucket_bit;\n	hashlin->bucket_max = (tommy_size_t)1 << hashlin->bucket_bit;\n	hashlin->bucket_mask = hashlin->bucket_max - 1;\n\n	segment = hashlin->bucket[hashlin->bucket_bit];\n	tommy_free(&segment[hashlin->bucket_max]);\n\n	tommy_hashlin_stable(hashlin);\n}\n\n/**\n * Shrink one step.\n */"), ("tommyhashlin.c", "				tommy_hashlin_node** segment;\n\n				/* shrink the hash size */\n				--hashlin->bucket_bit;\n				hashlin->bucket_max = (tommy_size_t)1 << hashlin->bucket_bit;\n				hashlin->bucket_mask = hashlin->bucket_max - 1;\n\n				/* free the last segment */\n				segment = hashlin->bucket[hashlin->bucket_bit];\n				tommy_free(&segment[(tommy_ptrdiff_t)1 << hashlin->bucket_bit]);\n\n				/* go in stable mode */\n				tommy_hashlin_stable(hashlin);\n				break;", "				hashlin_drop_segment(hashlin);\n				break;"))
r("hashlin-split-locals", "C05", ("tommyhashlin.c", "				tommy_size_t pos = (j->index & mask) != 0;\n				if (*split[pos])\n					tommy_list_insert_tail_not_empty(*split[pos], j);\n				else\n					tommy_list_insert_first(split[pos], j);", "				tommy_hashlin_node** to = (j->index & mask) ? split[1] : split[0];\n				if (*to)\n					tommy_list_insert_tail_not_empty(*to, j);\n				else\n					tommy_list_insert_first(to, j);"))
r("hashlin-split-helper", "C05 C06", ("tommyhashlin.c", "/**\n * Grow one step.\n */", "static void hashlin_split(tommy_hashlin* hashlin)\n{\n	tommy_hashlin_node** low = tommy_hashlin_pos(hashlin, hashlin->split);\n	tommy_hashlin_node** high = tommy_hashlin_pos(hashlin, hashlin->split + hashlin->low_max);\n	tommy_hashlin_node* j = *low;\n\n	*low = 0;\n	*high = 0;\n\n	while (j) {\n		tommy_hashlin_node* j_next = j->next;\n		tommy_hashlin_node** let = (j->index & hashlin->low_max) != 0 ? high : low;\n		if (*let)\n			tommy_list_insert_tail_not_empty(*let, j);\n		else\n			tommy_list_insert_first(let, j);\n		j = j_next;\n	}\n\n	++hashlin->split;\n}\n\n/**\n * Grow one step.\n */"), ("tommyhashlin.c", """			tommy_hashlin_node** split[2];
			tommy_hashlin_node* j;
			tommy_size_t mask;

			/* get the low bucket */
			split[0] = tommy_hashlin_pos(hashlin, hashlin->split);

			/* get the high bucket */
			split[1] = tommy_hashlin_pos(hashlin, hashlin->split + hashlin->low_max);

			/* save the low bucket */
			j = *split[0];

			/* reinitialize the buckets */
			*split[0] = 0;
			*split[1] = 0;

			/* the bit used to identify the bucket */
			mask = hashlin->low_max;

			/* flush the bucket */
			while (j) {
				tommy_hashlin_node* j_next = j->next;
				tommy_size_t pos = (j->index & mask) != 0;
				if (*split[pos])
					tommy_list_insert_tail_not_empty(*split[pos], j);
				else
					tommy_list_insert_first(split[pos], j);
				j = j_next;
			}

			/* go forward */
			++hashlin->split;
""", "			hashlin_split(hashlin);\n"))
r("hashlin-target-inline", "C05 C06", ("tommyhashlin.c", "		tommy_size_t split_target = 2 * hashlin->count;\n\n", ""), ("tommyhashlin.c", "while (hashlin->split + hashlin->low_max < split_target) {", "while (hashlin->split + hashlin->low_max < 2 * hashlin->count) {"))
r("tree-balance-max", "C07 C08", ("tommytree.c", "	/* recompute key */\n	root->index = 0;\n\n	if (root->prev && root->prev->index > root->index)\n		root->index = root->prev->index;\n\n	if (root->next && root->next->index > root->index)\n		root->index = root->next->index;\n\n	/* count itself */\n	root->index += 1;\n", "	{\n		tommy_size_t l = root->prev ? root->prev->index : 0;\n		tommy_size_t h = root->next ? root->next->index : 0;\n\n		root->index = 1 + (l > h ? l : h);\n	}\n"))
r("tree-search-loop", "C07 C08", ("tommytree.c", "	int c;\n\n	if (!root)\n		return 0;\n\n	c = cmp(data, root->data);\n\n	if (c < 0)\n		return tommy_tree_search_node(cmp, root->prev, data);\n\n	if (c > 0)\n		return tommy_tree_search_node(cmp, root->next, data);\n\n	return root;", "	while (root) {\n		int c = cmp(data, root->data);\n\n		if (c == 0)\n			break;\n		root = c < 0 ? root->prev : root->next;\n	}\n\n	return root;"))
r("tree-insert-else", "C07 C08", ("tommytree.c", "	if (c < 0) {\n		root->prev = tommy_tree_insert_node(cmp, root->prev, let);\n		return tommy_tree_balance(root);\n	}\n\n	if (c > 0) {\n		root->next = tommy_tree_insert_node(cmp, root->next, let);\n		return tommy_tree_balance(root);\n	}\n\n	/* already present, set the return pointer */\n	*let = root;\n\n	return root;", "	if (c == 0) {\n		*let = root;\n		return root;\n	}\n\n	if (c > 0)\n		root->next = tommy_tree_insert_node(cmp, root->next, let);\n	else\n		root->prev = tommy_tree_insert_node(cmp, root->prev, let);\n\n	return tommy_tree_balance(root);"))
r("tree-remove-existing-direct", "C07 C20", ("tommytree.c", "	void* data = tommy_tree_remove(tree, node->data);\n\n	assert(data != 0);\n\n	return data;", "	void* data;\n\n	data = node->data;\n	data = tommy_tree_remove(tree, data);\n	assert(data);\n	return data;"))
r("trie-insert-while", "C09 C10", ("tommytrie.c", """recurse:
	ptr = *let_ptr;

	/* if null, just insert the node */
	if (!ptr) {
		/* setup the node as a list */
		tommy_list_insert_first(let_ptr, insert);
		return;
	}

	if (trie_get_type(ptr) == TOMMY_TRIE_TYPE_TREE) {
		/* repeat the process one level down */
		let_ptr = &trie_get_tree(ptr)->map[(key >> shift) & TOMMY_TRIE_TREE_MASK];
		shift -= TOMMY_TRIE_TREE_BIT;
		goto recurse;
	}
""", """	ptr = *let_ptr;
	while (ptr && trie_get_type(ptr) == TOMMY_TRIE_TYPE_TREE) {
		let_ptr = &trie_get_tree(ptr)->map[(key >> shift) & TOMMY_TRIE_TREE_MASK];
		shift -= TOMMY_TRIE_TREE_BIT;
		ptr = *let_ptr;
	}

	if (!ptr) {
		tommy_list_insert_first(let_ptr, insert);
		return;
	}
"""))
r("trie-reduce-helper", "C09 C10", ("tommytrie.c", "static tommy_trie_node* trie_bucket_remove_existing(", """/* position of the only node of a tree, or TOMMY_TRIE_TREE_MAX if it has more or a sub tree */
static tommy_uint_t trie_only_node(tommy_trie_tree* tree)
{
	tommy_uint_t i;
	tommy_uint_t last = TOMMY_TRIE_TREE_MAX;

	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i) {
		if (!tree->map[i])
			continue;
		if (trie_get_type(tree->map[i]) != TOMMY_TRIE_TYPE_NODE || last != TOMMY_TRIE_TREE_MAX)
			return TOMMY_TRIE_TREE_MAX;
		last = i;
	}
	return last;
}

static tommy_trie_node* trie_bucket_remove_existing("""), ("tommytrie.c", """	count = 0;
	last = 0;
	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i) {
		if (tree->map[i]) {
			/* if we have a sub tree, we cannot reduce */
			if (trie_get_type(tree->map[i]) != TOMMY_TRIE_TYPE_NODE)
				return remove;
			/* if more than one node, we cannot reduce */
			if (++count > 1)
				return remove;
			last = i;
		}
	}

	/* here count is never 0, as we cannot have a tree with only one sub node */
	assert(count == 1);
""", "	last = trie_only_node(tree);\n	if (last == TOMMY_TRIE_TREE_MAX)\n		return remove;\n"), ("tommytrie.c", "	tommy_uint_t i;\n	tommy_uint_t count;\n	tommy_uint_t last;\n\n	level = 0;", "	tommy_uint_t last;\n\n	level = 0;"))
r("trie-node-count-order", "C10 C20", ("tommytrie.c", "	tommy_allocator_free(trie->alloc, tree);\n	--trie->node_count;\n", "	trie->node_count -= 1;\n	tommy_allocator_free(trie->alloc, tree);\n"))
r("inplace-for", "C11", ("tommytrieinp.c", "	node = *let_ptr;\n	while (node && node->key != key) {\n		let_ptr = &node->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];\n		node = *let_ptr;\n		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;\n	}\n", "	for (node = *let_ptr; node && node->key != key; node = *let_ptr) {\n		tommy_uint_t i = (key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK;\n		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;\n		let_ptr = &node->map[i];\n	}\n"))
r("inplace-descend-helper", "C11", ("tommytrieinp.c", "static tommy_trie_inplace_node* trie_inplace_bucket_remove(", "static tommy_trie_inplace_node** trie_inplace_find(tommy_uint_t shift, tommy_trie_inplace_node** let_ptr, tommy_key_t key)\n{\n	while (*let_ptr && (*let_ptr)->key != key) {\n		let_ptr = &(*let_ptr)->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];\n		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;\n	}\n	return let_ptr;\n}\n\nstatic tommy_trie_inplace_node* trie_inplace_bucket_remove("), ("tommytrieinp.c", "	tommy_trie_inplace_node* leaf;\n\n	node = *let_ptr;\n	while (node && node->key != key) {\n		let_ptr = &node->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];\n		node = *let_ptr;\n		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;\n	}\n", "	tommy_trie_inplace_node* leaf;\n\n	let_ptr = trie_inplace_find(shift, let_ptr, key);\n	node = *let_ptr;\n"))
r("inplace-leaf-helper", "C11", ("tommytrieinp.c", "	/* search backward, statistically we have more zeros than ones */\n	i = TOMMY_TRIE_INPLACE_TREE_MAX - 1;\n	while (i >= 0) {\n		if (leaf->map[i]) {\n			leaf_let_ptr = &leaf->map[i];\n			leaf = *leaf_let_ptr;\n			i = TOMMY_TRIE_INPLACE_TREE_MAX - 1;\n			continue;\n		}\n		--i;\n	}\n", "	for (i = TOMMY_TRIE_INPLACE_TREE_MAX - 1; i >= 0; --i) {\n		if (leaf->map[i]) {\n			leaf_let_ptr = &leaf->map[i];\n			leaf = leaf->map[i];\n			i = TOMMY_TRIE_INPLACE_TREE_MAX;\n		}\n	}\n"))
r("array-grow-shift", "C12 C19 C20", ("tommyarray.c", "		++array->bucket_bit;\n		array->bucket_max = (tommy_size_t)1 << array->bucket_bit;\n	}", "		array->bucket_bit += 1;\n		array->bucket_max *= 2;\n	}"))
r("array-grow-count-last", "C12", ("tommyarrayof.c", "	if (array->count >= count)\n		return;\n	array->count = count;\n\n	while (count > array->bucket_max) {", "	if (count <= array->count)\n		return;\n\n	array->count = count;\n	while (array->bucket_max < count) {"))
r("array-init-helper", "C12", ("tommyarray.c", "	for (i = 1; i < TOMMY_ARRAY_BIT; ++i)\n		array->bucket[i] = array->bucket[0];", "	i = TOMMY_ARRAY_BIT;\n	while (--i > 0)\n		array->bucket[i] = array->bucket[0];"))
r("arrayblk-grow-insert", "C13", ("tommyarrayblk.c", "		while (block_mac < block_max) {\n			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));\n\n			/* set the new block */\n			tommy_array_set(&array->block, block_mac, ptr);\n\n			++block_mac;\n		}", "		for (; block_mac != block_max; ++block_mac)\n			tommy_array_set(&array->block, block_mac, tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));"))
r("arrayblk-div-up", "C13", ("tommyarrayblk.c", "	block_max = (count + TOMMY_ARRAYBLK_SIZE - 1) / TOMMY_ARRAYBLK_SIZE;", "	block_max = count / TOMMY_ARRAYBLK_SIZE;\n	if (count % TOMMY_ARRAYBLK_SIZE != 0)\n		++block_max;"))
r("arrayblkof-shift", "C13", ("tommyarrayblkof.c", "	block_max = (count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE;", "	block_max = 1 + (count - 1) / TOMMY_ARRAYBLKOF_SIZE;"))
r("alloc-align-mask", "C14", ("tommyalloc.c", "	if (block_size % align_size != 0)\n		block_size += align_size - block_size % align_size;", "	{\n		tommy_size_t rem = block_size % align_size;\n		if (rem)\n			block_size = block_size - rem + align_size;\n	}"))
r("alloc-segment-helper", "C14 C19", ("tommyalloc.c", "		/* insert in free list */\n		do {\n			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;\n			free_block->next = alloc->free_block;\n			alloc->free_block = free_block;\n\n			data += alloc->block_size;\n			size -= alloc->block_size;\n		} while (size >= alloc->block_size);", "		while (size >= alloc->block_size) {\n			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;\n			data += alloc->block_size;\n			size -= alloc->block_size;\n			free_block->next = alloc->free_block;\n			alloc->free_block = free_block;\n		}"))
r("alloc-reset-for", "C14 C19", ("tommyalloc.c", "	tommy_allocator_entry* block = alloc->used_segment;\n\n	while (block) {\n		tommy_allocator_entry* block_next = block->next;\n		tommy_free(block);\n		block = block_next;\n	}\n\n	alloc->count = 0;\n	alloc->free_block = 0;\n	alloc->used_segment = 0;", "	alloc->count = 0;\n	alloc->free_block = 0;\n\n	while (alloc->used_segment) {\n		tommy_allocator_entry* block = alloc->used_segment;\n		alloc->used_segment = block->next;\n		tommy_free(block);\n	}"))
r("sort-merge-for", "C02", ("tommychain.h", "	counter = 0;\n	while (1) {\n		tommy_node* next;", "	for (counter = 0;;) {\n		tommy_node* next;"))
r("sort-carry-local", "C02", ("tommychain.h", "		i = 0;\n		mask = counter;\n		while ((mask & 1) != 0) {\n			tommy_chain_merge_degenerated(&bit[i], last, cmp);\n			mask >>= 1;\n			last = &bit[i];\n			++i;\n		}", "		for (i = 0, mask = counter; mask & 1; ++i) {\n			tommy_chain_merge_degenerated(&bit[i], last, cmp);\n			last = &bit[i];\n			mask >>= 1;\n		}"))
r("sort-merge-le", "C02", ("tommychain.h", "		if (cmp(first_i->data, second_i->data) > 0) {\n			tommy_node* next = second_i->next;", "		int c = cmp(first_i->data, second_i->data);\n		if (c > 0) {\n			tommy_node* next = second_i->next;"))
r("sort-final-for", "C02", ("tommychain.h", "	i = tommy_ctz(counter);\n	mask = counter >> i;\n	while (mask != 1) {\n		mask >>= 1;\n		if (mask & 1)\n			tommy_chain_merge_degenerated(&bit[i + 1], &bit[i], cmp);\n		else\n			bit[i + 1] = bit[i];\n		++i;\n	}", "	i = tommy_ctz(counter);\n	for (mask = counter >> i; mask > 1; ++i) {\n		mask >>= 1;\n		if ((mask & 1) == 0)\n			bit[i + 1] = bit[i];\n		else\n			tommy_chain_merge_degenerated(&bit[i + 1], &bit[i], cmp);\n	}"))
r("hash-tail-if", "C15", ("tommyhash.c", "	while (key_len > 12) {\n		a += tommy_le_uint32_read(key + 0);\n		b += tommy_le_uint32_read(key + 4);\n		c += tommy_le_uint32_read(key + 8);\n\n		tommy_mix(a, b, c);\n\n		key_len -= 12;\n		key += 12;\n	}", "	for (; key_len > 12; key_len -= 12) {\n		const unsigned char* k = key;\n		key += 12;\n		a += tommy_le_uint32_read(k);\n		b += tommy_le_uint32_read(k + 4);\n		c += tommy_le_uint32_read(k + 8);\n\n		tommy_mix(a, b, c);\n	}"))
r("strhash-reader", "C16", ("tommyhash.c", "	tommy_uint32_t v = str[0];\n\n	if (str[0] != 0) {\n		v |= (tommy_uint32_t)str[1] << 8;\n		if (str[1] != 0) {\n			v |= (tommy_uint32_t)str[2] << 16;\n			if (str[2] != 0)\n				v |= (tommy_uint32_t)str[3] << 24;\n		}\n	}\n\n	return v;", "	tommy_uint32_t v = 0;\n	int i;\n\n	for (i = 0; i < 4; ++i) {\n		v |= (tommy_uint32_t)str[i] << (8 * i);\n		if (str[i] == 0)\n			break;\n	}\n\n	return v;"))
r("inthash-rewrite", "C17", ("tommyhash.h", "	key = ~key + (key << 21);", "	key = (key << 21) - key - 1;"))
r("ilog-clz", "C17 C05", ("tommytypes.h", "	return __builtin_clzll(value) ^ 63;", "	return 63 - __builtin_clzll(value);"))
r("foreach-next-first", "C18", ("tommyhashtbl.c", "		while (node) {\n			void* data = node->data;\n			node = node->next;\n			func(data);\n		}", "		for (; node;) {\n			tommy_hashtable_node* next = node->next;\n			func(node->data);\n			node = next;\n		}"))
r("tree-foreach-loop", "C18", ("tommytree.c", "	tommy_tree_node* next;\n\n	if (!root)\n		return;\n\n	tommy_tree_foreach_node(root->prev, func);\n\n	/* make a copy in case func is free() */\n	next = root->next;\n\n	func(root->data);\n\n	tommy_tree_foreach_node(next, func);", "	while (root) {\n		tommy_tree_node* next;\n\n		tommy_tree_foreach_node(root->prev, func);\n		next = root->next;\n		func(root->data);\n		root = next;\n	}"))
r("hashlin-pos-inline", "C05 C18", ("tommyhashlin.h", "	/* get the highest bit set, in case of all 0, return 0 */\n	bsr = tommy_ilog2(pos | 1);\n\n	return &hashlin->bucket[bsr][pos];", "	bsr = pos ? tommy_ilog2(pos) : 0;\n\n	return hashlin->bucket[bsr] + pos;"))
r("hashlin-ref-if", "C05", ("tommyhashlin.h", "	pos = hash & hashlin->low_mask;\n	high_pos = hash & hashlin->bucket_mask;\n", "	high_pos = hash & hashlin->bucket_mask;\n	pos = high_pos & hashlin->low_mask;\n"))
r("count-helper-usage", "C20", ("tommyhashlin.c", "	       + hashlin->count * (tommy_size_t)sizeof(tommy_hashlin_node);", "	       + sizeof(tommy_hashlin_node) * tommy_hashlin_count(hashlin);"))
r("list-count-while", "C01 C20", ("tommylist.h", "	tommy_size_t count = 0;\n	tommy_node* i = tommy_list_head(list);\n\n	while (i) {\n		++count;\n		i = i->next;\n	}\n\n	return count;", "	tommy_size_t count = 0;\n	tommy_node* i;\n\n	for (i = tommy_list_head(list); i != 0; i = i->next)\n		count = count + 1;\n\n	return count;"))
