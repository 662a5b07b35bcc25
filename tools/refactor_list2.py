r("alloc-carve-count", "C14", ("tommyalloc.c", """		do {
			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;
			free_block->next = alloc->free_block;
			alloc->free_block = free_block;

			data += alloc->block_size;
			size -= alloc->block_size;
		} while (size >= alloc->block_size);
""", """		for (mis = size / alloc->block_size; mis != 0; --mis) {
			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;
			free_block->next = alloc->free_block;
			alloc->free_block = free_block;
			data += alloc->block_size;
		}
"""))
r("alloc-carve-while", "C14", ("tommyalloc.c", """		do {
			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;
			free_block->next = alloc->free_block;
			alloc->free_block = free_block;

			data += alloc->block_size;
			size -= alloc->block_size;
		} while (size >= alloc->block_size);
""", """		while (size >= alloc->block_size) {
			tommy_allocator_entry* free_block = (tommy_allocator_entry*)data;

			size -= alloc->block_size;
			data += alloc->block_size;

			free_block->next = alloc->free_block;
			alloc->free_block = free_block;
		}
"""))
r("alloc-carve-helper", "C14 C19", ("tommyalloc.c", "@tommy_allocator_alloc", """static void allocator_push(tommy_allocator* alloc, void* ptr)
{
	tommy_allocator_entry* entry = (tommy_allocator_entry*)ptr;

	entry->next = alloc->free_block;
	alloc->free_block = entry;
}

static void allocator_refill(tommy_allocator* alloc)
{
	tommy_size_t head = sizeof(tommy_allocator_entry);
	tommy_size_t size = TOMMY_ALLOCATOR_BLOCK_SIZE;
	tommy_size_t min = head + alloc->align_size + alloc->block_size;
	tommy_uintptr_t mis;
	char* data;
	char* end;

	if (size < min)
		size = min;

	data = (char*)tommy_malloc(size);
	end = data + size;

	((tommy_allocator_entry*)data)->next = alloc->used_segment;
	alloc->used_segment = (tommy_allocator_entry*)data;

	data += head;
	mis = (tommy_uintptr_t)data % alloc->align_size;
	if (mis)
		data += alloc->align_size - mis;

	size = end - data;
	do {
		allocator_push(alloc, data);
		data += alloc->block_size;
		size -= alloc->block_size;
	} while (size >= alloc->block_size);
}

void* tommy_allocator_alloc(tommy_allocator* alloc)
{
	tommy_allocator_entry* ptr;

	if (alloc->free_block == 0)
		allocator_refill(alloc);

	ptr = alloc->free_block;
	alloc->free_block = ptr->next;
	alloc->count++;

	return ptr;
}
"""))
r("alloc-init-round", "C14", ("tommyalloc.c", """	if (block_size % align_size != 0)
		block_size += align_size - block_size % align_size;
""", """	{
		tommy_size_t over = block_size % align_size;

		if (over)
			block_size = block_size - over + align_size;
	}
"""))
r("array-grow-dowhile", "C12 C20", ("tommyarray.c", "@tommy_array_grow", """void tommy_array_grow(tommy_array* array, tommy_size_t count)
{
	if (count > array->count) {
		array->count = count;

		for (; array->bucket_max < count; array->bucket_max = (tommy_size_t)1 << array->bucket_bit) {
			tommy_size_t max = array->bucket_max;
			void** segment = tommy_cast(void**, tommy_calloc(max, sizeof(void*)));

			array->bucket[array->bucket_bit++] = segment - max;
		}
	}
}
"""))
r("arrayof-done-down", "C12 C19", ("tommyarrayof.c", "@tommy_arrayof_done", """void tommy_arrayof_done(tommy_arrayof* array)
{
	tommy_uint_t i = array->bucket_bit;

	while (i > TOMMY_ARRAYOF_BIT) {
		--i;
		tommy_free((unsigned char*)array->bucket[i] + ((tommy_size_t)1 << i) * array->element_size);
	}

	tommy_free(array->bucket[0]);
}
"""))
r("arrayblkof-grow-for", "C13 C19", ("tommyarrayblkof.c", """	if (block_mac < block_max) {
		/* grow the block array */
		tommy_array_grow(&array->block, block_max);

		/* allocate new blocks */
		while (block_mac < block_max) {
			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));

			/* set the new block */
			tommy_array_set(&array->block, block_mac, ptr);

			++block_mac;
		}
	}
""", """	tommy_array_grow(&array->block, block_max);

	for (; block_mac < block_max; ++block_mac)
		tommy_array_set(&array->block, block_mac, tommy_calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));
"""))
r("arrayblk-done-local", "C13 C19", ("tommyarrayblk.c", "	for (i = 0; i < tommy_array_size(&array->block); ++i)\n		tommy_free(tommy_array_get(&array->block, i));", "	tommy_size_t n = tommy_array_size(&array->block);\n\n	for (i = 0; i != n; ++i) {\n		void* ptr = tommy_array_get(&array->block, i);\n		tommy_free(ptr);\n	}"))
r("arrayblkof-done-down", "C19", ("tommyarrayblkof.c", "	for (i = 0; i < tommy_array_size(&array->block); ++i)\n		tommy_free(tommy_array_get(&array->block, i));", "	i = tommy_array_size(&array->block);\n	while (i-- > 0)\n		tommy_free(tommy_array_get(&array->block, i));"))
r("list-concat-nested", "C01 C05", ("tommylist.h", "@tommy_list_concat", """tommy_inline void tommy_list_concat(tommy_list* first, tommy_list* second)
{
	tommy_node* b = *second;

	if (b) {
		tommy_node* a = *first;

		if (a) {
			tommy_node* tail = b->prev;

			a->prev->next = b;
			b->prev = a->prev;
			a->prev = tail;
		} else {
			*first = b;
		}
	}
}
"""))
r("list-foreach-for", "C18", ("tommylist.h", "@tommy_list_foreach", """tommy_inline void tommy_list_foreach(tommy_list* list, tommy_foreach_func* func)
{
	tommy_node* node;
	tommy_node* next;

	for (node = *list; node != 0; node = next) {
		next = node->next;
		func(node->data);
	}
}
"""))
r("list-remove-branches", "C01 C03", ("tommylist.h", "@tommy_list_remove_existing", """tommy_inline void* tommy_list_remove_existing(tommy_list* list, tommy_node* node)
{
	tommy_node* next = node->next;
	tommy_node* prev = node->prev;

	if (*list == node) {
		*list = next;
		if (next)
			next->prev = prev;
	} else {
		prev->next = next;
		if (next)
			next->prev = prev;
		else
			(*list)->prev = prev;
	}

	return node->data;
}
"""))
r("list-insert-tail-inline", "C01 C03", ("tommylist.h", "@tommy_list_insert_tail", """tommy_inline void tommy_list_insert_tail(tommy_list* list, tommy_node* node, void* data)
{
	node->data = data;

	if (*list == 0) {
		tommy_list_insert_first(list, node);
		return;
	}

	tommy_list_insert_tail_not_empty(*list, node);
}
"""))
r("sort-carry-for", "C02", ("tommychain.h", """		i = 0;
		mask = counter;
		while ((mask & 1) != 0) {
			tommy_chain_merge_degenerated(&bit[i], last, cmp);
			mask >>= 1;
			last = &bit[i];
			++i;
		}
""", """		for (i = 0, mask = counter; mask & 1; mask >>= 1) {
			tommy_chain_merge_degenerated(&bit[i], last, cmp);
			last = &bit[i++];
		}
"""))
r("sort-merge-swap", "C02", ("tommychain.h", "@tommy_chain_merge", """tommy_inline void tommy_chain_merge(tommy_chain* first, tommy_chain* second, tommy_compare_func* cmp)
{
	tommy_node* a = first->head;
	tommy_node* b = second->head;

	for (;;) {
		tommy_node* next;

		if (cmp(a->data, b->data) <= 0) {
			if (a == first->tail) {
				tommy_chain_concat(a, b);
				first->tail = second->tail;
				return;
			}
			a = a->next;
			continue;
		}

		next = b->next;
		if (a != first->head) {
			tommy_chain_splice(a->prev, a, b, b);
		} else {
			tommy_chain_concat(b, a);
			first->head = b;
		}
		if (b == second->tail)
			return;
		b = next;
	}
}
"""))
r("sort-dowhile", "C02", ("tommychain.h", """	while (1) {
		tommy_node* next;
		tommy_chain* last;

		/* carry bit to add */
""", """	do {
		tommy_node* next;
		tommy_chain* last;

		/* carry bit to add */
"""), ("tommychain.h", """		if (node == tail)
			break;
		node = next;
	}
""", """		if (node != tail) {
			node = next;
			continue;
		}
		break;
	} while (1);
"""))
r("hash-shared-core", "C15", ("tommyhash.c", "@tommy_hash_u32", """static void hash_core(tommy_uint32_t* pa, tommy_uint32_t* pb, tommy_uint32_t* pc, const unsigned char* key, tommy_size_t key_len)
{
	tommy_uint32_t a = *pa, b = *pb, c = *pc;

	while (key_len > 12) {
		a += tommy_le_uint32_read(key + 0);
		b += tommy_le_uint32_read(key + 4);
		c += tommy_le_uint32_read(key + 8);

		tommy_mix(a, b, c);

		key_len -= 12;
		key += 12;
	}

	if (key_len == 0)
		goto out;

	switch (key_len) {
	case 12 :
		c += tommy_le_uint32_read(key + 8);
		b += tommy_le_uint32_read(key + 4);
		a += tommy_le_uint32_read(key + 0);
		break;
	case 11 : c += ((tommy_uint32_t)key[10]) << 16; /* fallthrough */
	case 10 : c += ((tommy_uint32_t)key[9]) << 8; /* fallthrough */
	case 9 : c += key[8]; /* fallthrough */
	case 8 :
		b += tommy_le_uint32_read(key + 4);
		a += tommy_le_uint32_read(key + 0);
		break;
	case 7 : b += ((tommy_uint32_t)key[6]) << 16; /* fallthrough */
	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */
	case 5 : b += key[4]; /* fallthrough */
	case 4 :
		a += tommy_le_uint32_read(key + 0);
		break;
	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */
	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */
	case 1 : a += key[0]; /* fallthrough */
	}

	tommy_final(a, b, c);

out:
	*pa = a;
	*pb = b;
	*pc = c;
}

tommy_uint32_t tommy_hash_u32(tommy_uint32_t init_val, const void* void_key, tommy_size_t key_len)
{
	tommy_uint32_t a, b, c;

	a = b = c = 0xdeadbeef + ((tommy_uint32_t)key_len) + init_val;

	hash_core(&a, &b, &c, tommy_cast(const unsigned char*, void_key), key_len);

	return c;
}
"""))
r("hash-tail-bytes", "C15", ("tommyhash.c", """	switch (key_len) {
	case 0 :
		return c; /* used only when called with a zero length */
	case 12 :
		c += tommy_le_uint32_read(key + 8);
		b += tommy_le_uint32_read(key + 4);
		a += tommy_le_uint32_read(key + 0);
		break;
	case 11 : c += ((tommy_uint32_t)key[10]) << 16; /* fallthrough */
	case 10 : c += ((tommy_uint32_t)key[9]) << 8; /* fallthrough */
	case 9 : c += key[8]; /* fallthrough */
	case 8 :
		b += tommy_le_uint32_read(key + 4);
		a += tommy_le_uint32_read(key + 0);
		break;
	case 7 : b += ((tommy_uint32_t)key[6]) << 16; /* fallthrough */
	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */
	case 5 : b += key[4]; /* fallthrough */
	case 4 :
		a += tommy_le_uint32_read(key + 0);
		break;
	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */
	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */
	case 1 : a += key[0]; /* fallthrough */
	}

	tommy_final(a, b, c);

	return c;
""", """	if (key_len == 0)
		return c;

	{
		tommy_size_t i;

		for (i = 0; i < key_len; ++i) {
			tommy_uint32_t v = (tommy_uint32_t)key[i] << (8 * (i & 3));
			if (i < 4)
				a += v;
			else if (i < 8)
				b += v;
			else
				c += v;
		}
	}

	tommy_final(a, b, c);

	return c;
"""))
r("strhash-word-helper", "C16", ("tommyhash.c", "@tommy_strhash_u32", """static int strhash_tail(tommy_uint32_t* x, tommy_uint32_t v)
{
	tommy_uint32_t sum = 0;

	if (!tommy_haszero_u32(v)) {
		*x += v;
		return 0;
	}

	if (v & 0xff) {
		sum += v & 0xff;
		if (v & 0xff00) {
			sum += v & 0xff00;
			if (v & 0xff0000)
				sum += v & 0xff0000;
		}
	}

	*x += sum;
	return 1;
}

tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
{
	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
	tommy_uint32_t a, b, c;

	a = b = c = 0xdeadbeef + init_val;

	for (;;) {
		if (strhash_tail(&a, tommy_le_uint32_read_str(key)))
			break;
		if (strhash_tail(&b, tommy_le_uint32_read_str(key + 4)))
			break;
		if (strhash_tail(&c, tommy_le_uint32_read_str(key + 8)))
			break;

		tommy_mix(a, b, c);
		key += 12;
	}

	tommy_final(a, b, c);

	return c;
}
"""))
r("hashtable-foreach-nested-for", "C18", ("tommyhashtbl.c", "@tommy_hashtable_foreach", """void tommy_hashtable_foreach(tommy_hashtable* hashtable, tommy_foreach_func* func)
{
	tommy_size_t i;

	for (i = 0; i <= hashtable->bucket_mask; ++i) {
		tommy_hashtable_node* node;
		tommy_hashtable_node* next;

		for (node = hashtable->bucket[i]; node; node = next) {
			next = node->next;
			func(node->data);
		}
	}
}
"""))
r("hashtable-foreach-list", "C18", ("tommyhashtbl.c", "@tommy_hashtable_foreach_arg", """void tommy_hashtable_foreach_arg(tommy_hashtable* hashtable, tommy_foreach_arg_func* func, void* arg)
{
	tommy_hashtable_node** pos = hashtable->bucket;
	tommy_hashtable_node** end = pos + hashtable->bucket_max;

	for (; pos != end; ++pos)
		tommy_list_foreach_arg(pos, func, arg);
}
"""))
r("hashtable-search-for", "C03", ("tommyhashtbl.h", "@tommy_hashtable_search", """tommy_inline void* tommy_hashtable_search(tommy_hashtable* hashtable, tommy_search_func* cmp, const void* cmp_arg, tommy_hash_t hash)
{
	tommy_hashtable_node* i;

	for (i = tommy_hashtable_bucket(hashtable, hash); i != 0; i = i->next) {
		if (i->index != hash)
			continue;
		if (!cmp(cmp_arg, i->data))
			break;
	}

	return i ? i->data : 0;
}
"""))
r("hashtable-insert-index-first", "C03 C20", ("tommyhashtbl.c", "@tommy_hashtable_insert", """void tommy_hashtable_insert(tommy_hashtable* hashtable, tommy_hashtable_node* node, void* data, tommy_hash_t hash)
{
	tommy_hashtable_node** let = hashtable->bucket + (hash & hashtable->bucket_mask);

	++hashtable->count;
	node->index = hash;
	tommy_list_insert_tail(let, node, data);
}
"""))
r("hashdyn-insert-inline-grow", "C04 C06", ("tommyhashdyn.c", "	++hashdyn->count;\n\n	hashdyn_grow_step(hashdyn);\n", "	if (++hashdyn->count >= (hashdyn->bucket_max >> 1))\n		tommy_hashdyn_resize(hashdyn, hashdyn->bucket_bit + 1);\n"))
r("hashdyn-remove-via-existing", "C04 C06 C19", ("tommyhashdyn.c", """			tommy_list_remove_existing(&hashdyn->bucket[pos], node);

			--hashdyn->count;

			hashdyn_shrink_step(hashdyn);

			return node->data;
		}
		node = node->next;
""", """			return tommy_hashdyn_remove_existing(hashdyn, node);
		}
		node = node->next;
"""))
r("hashdyn-resize-calloc", "C04 C19", ("tommyhashdyn.c", "	new_bucket = tommy_cast(tommy_hashdyn_node**, tommy_malloc(new_bucket_max * sizeof(tommy_hashdyn_node*)));\n", "	new_bucket = tommy_cast(tommy_hashdyn_node**, tommy_calloc(new_bucket_max, sizeof(tommy_hashdyn_node*)));\n"), ("tommyhashdyn.c", "			/* setup the new two buckets */\n			new_bucket[i] = 0;\n			new_bucket[i + bucket_max] = 0;\n\n", ""))
r("hashdyn-two-functions", "C04 C06 C19", ("tommyhashdyn.c", "@tommy_hashdyn_resize", """static void hashdyn_setup(tommy_hashdyn* hashdyn, tommy_hashdyn_node** bucket, tommy_size_t bit)
{
	tommy_free(hashdyn->bucket);
	hashdyn->bucket = bucket;
	hashdyn->bucket_bit = bit;
	hashdyn->bucket_max = (tommy_size_t)1 << bit;
	hashdyn->bucket_mask = hashdyn->bucket_max - 1;
}

static void hashdyn_expand(tommy_hashdyn* hashdyn)
{
	tommy_size_t max = hashdyn->bucket_max;
	tommy_size_t mask = max * 2 - 1;
	tommy_size_t i;
	tommy_hashdyn_node** let = tommy_cast(tommy_hashdyn_node**, tommy_malloc(max * 2 * sizeof(tommy_hashdyn_node*)));

	for (i = 0; i < max; ++i) {
		tommy_hashdyn_node* j = hashdyn->bucket[i];

		let[i] = 0;
		let[i + max] = 0;
		while (j) {
			tommy_hashdyn_node* j_next = j->next;
			tommy_size_t pos = j->index & mask;
			if (let[pos])
				tommy_list_insert_tail_not_empty(let[pos], j);
			else
				tommy_list_insert_first(&let[pos], j);
			j = j_next;
		}
	}

	hashdyn_setup(hashdyn, let, hashdyn->bucket_bit + 1);
}

static void hashdyn_reduce(tommy_hashdyn* hashdyn)
{
	tommy_size_t max = hashdyn->bucket_max / 2;
	tommy_size_t i;
	tommy_hashdyn_node** let = tommy_cast(tommy_hashdyn_node**, tommy_malloc(max * sizeof(tommy_hashdyn_node*)));

	for (i = 0; i < max; ++i) {
		let[i] = hashdyn->bucket[i];
		tommy_list_concat(&let[i], &hashdyn->bucket[i + max]);
	}

	hashdyn_setup(hashdyn, let, hashdyn->bucket_bit - 1);
}
"""), ("tommyhashdyn.c", "tommy_hashdyn_resize(hashdyn, hashdyn->bucket_bit + 1);", "hashdyn_expand(hashdyn);"), ("tommyhashdyn.c", "tommy_hashdyn_resize(hashdyn, hashdyn->bucket_bit - 1);", "hashdyn_reduce(hashdyn);"))
r("hashlin-remove-via-existing", "C05 C06", ("tommyhashlin.c", """			tommy_list_remove_existing(let_ptr, node);

			--hashlin->count;

			hashlin_shrink_step(hashlin);

			return node->data;
		}
		node = node->next;
""", """			tommy_hashlin_remove_existing(hashlin, node);
			return node->data;
		}
		node = node->next;
"""))
r("hashlin-early-return", "C05 C06", ("tommyhashlin.c", """	/* if we are shrinking */
	if (hashlin->state == TOMMY_HASHLIN_STATE_SHRINK) {
		/* compute""", """	if (hashlin->state != TOMMY_HASHLIN_STATE_SHRINK)
		return;

	{
		/* compute"""))
r("hashlin-grow-setup-helper", "C05 C06 C19", ("tommyhashlin.c", "/**\n * Grow one step.\n */", """static void hashlin_add_segment(tommy_hashlin* hashlin)
{
	tommy_size_t max = hashlin->bucket_max;
	tommy_hashlin_node** segment;

	segment = tommy_cast(tommy_hashlin_node**, tommy_malloc(max * sizeof(tommy_hashlin_node*)));
	hashlin->bucket[hashlin->bucket_bit] = segment - max;

	hashlin->split = 0;
	hashlin->low_max = max;
	hashlin->low_mask = hashlin->bucket_mask;
	++hashlin->bucket_bit;
	hashlin->bucket_max = 2 * max;
	hashlin->bucket_mask = hashlin->bucket_max - 1;
}

/**
 * Grow one step.
 */"""), ("tommyhashlin.c", """			tommy_hashlin_node** segment;

			/* set the lower size */
			hashlin->low_max = hashlin->bucket_max;
			hashlin->low_mask = hashlin->bucket_mask;

			/* allocate the new vector using malloc() and not calloc() */
			/* because data is fully initialized in the split process */
			segment = tommy_cast(tommy_hashlin_node**, tommy_malloc(hashlin->low_max * sizeof(tommy_hashlin_node*)));

			/* store it adjusting the offset */
			/* cast to ptrdiff_t to ensure to get a negative value */
			hashlin->bucket[hashlin->bucket_bit] = &segment[-(tommy_ptrdiff_t)hashlin->low_max];

			/* grow the hash size */
			++hashlin->bucket_bit;
			hashlin->bucket_max = (tommy_size_t)1 << hashlin->bucket_bit;
			hashlin->bucket_mask = hashlin->bucket_max - 1;

			/* start from the beginning going forward */
			hashlin->split = 0;
""", "			hashlin_add_segment(hashlin);\n"))
r("hashlin-merge-locals", "C05", ("tommyhashlin.c", """			tommy_list_concat(split[0], split[1]);
""", """			if (*split[1])
				tommy_list_concat(split[0], split[1]);
"""))
r("hashlin-foreach-shared", "C18", ("tommyhashlin.c", "@tommy_hashlin_foreach", """void tommy_hashlin_foreach(tommy_hashlin* hashlin, tommy_foreach_func* func)
{
	tommy_size_t pos = 0;

	while (pos < hashlin->low_max + hashlin->split) {
		tommy_list_foreach(tommy_hashlin_pos(hashlin, pos), func);
		++pos;
	}
}
"""))
r("hashlin-done-down", "C19", ("tommyhashlin.c", "@tommy_hashlin_done", """void tommy_hashlin_done(tommy_hashlin* hashlin)
{
	tommy_uint_t bit = hashlin->bucket_bit;

	while (bit > TOMMY_HASHLIN_BIT) {
		--bit;
		tommy_free(hashlin->bucket[bit] + ((tommy_size_t)1 << bit));
	}

	tommy_free(hashlin->bucket[0]);
}
"""))
r("tree-rotate-locals", "C07 C08", ("tommytree.c", "@tommy_tree_rotate_left", """static tommy_tree_node* tommy_tree_rotate_left(tommy_tree_node* root)
{
	tommy_tree_node* pivot = root->next;
	tommy_tree_node* middle = pivot->prev;

	root->next = middle;
	root = tommy_tree_balance(root);
	pivot->prev = root;

	return tommy_tree_balance(pivot);
}
"""))
r("tree-height-helper", "C07 C08", ("tommytree.c", "@tommy_tree_delta", """static tommy_ssize_t tommy_tree_height(tommy_tree_node* node)
{
	if (node == 0)
		return 0;
	return node->index;
}

static tommy_ssize_t tommy_tree_delta(tommy_tree_node* root)
{
	return tommy_tree_height(root->prev) - tommy_tree_height(root->next);
}
"""))
r("tree-balance-ifelse", "C07 C08", ("tommytree.c", "@tommy_tree_balance", """static tommy_tree_node* tommy_tree_balance(tommy_tree_node* root)
{
	tommy_ssize_t delta = tommy_tree_delta(root);
	tommy_size_t h;

	if (delta > 1) {
		if (tommy_tree_delta(root->prev) < 0)
			root->prev = tommy_tree_rotate_left(root->prev);
		root = tommy_tree_rotate_right(root);
	} else if (delta < -1) {
		if (tommy_tree_delta(root->next) > 0)
			root->next = tommy_tree_rotate_right(root->next);
		root = tommy_tree_rotate_left(root);
	} else {
		h = delta >= 0 ? (root->prev ? root->prev->index : 0) : root->next->index;
		root->index = h + 1;
	}

	return root;
}
"""))
r("tree-remove-else", "C07 C08", ("tommytree.c", "@tommy_tree_remove_node", """static tommy_tree_node* tommy_tree_remove_node(tommy_compare_func* cmp, tommy_tree_node* root, void* data, tommy_tree_node** let)
{
	int c;

	if (root == 0)
		return root;

	c = cmp(data, root->data);
	if (c == 0) {
		*let = root;
		return tommy_tree_move_right(root->prev, root->next);
	}

	if (c > 0)
		root->next = tommy_tree_remove_node(cmp, root->next, data, let);
	else
		root->prev = tommy_tree_remove_node(cmp, root->prev, data, let);

	return tommy_tree_balance(root);
}
"""))
r("tree-insert-return", "C07 C20", ("tommytree.c", "@tommy_tree_insert", """void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
{
	tommy_tree_node* found = node;

	node->index = 1;
	node->next = 0;
	node->prev = 0;
	node->data = data;

	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &found);

	if (found != node)
		return found->data;

	tree->count += 1;

	return data;
}
"""))
r("trie-bucket-while", "C09", ("tommytrie.c", "@tommy_trie_bucket", """tommy_trie_node* tommy_trie_bucket(tommy_trie* trie, tommy_key_t key)
{
	tommy_uint_t shift = TOMMY_TRIE_BUCKET_SHIFT;
	void* ptr = trie->bucket[key >> TOMMY_TRIE_BUCKET_SHIFT];
	tommy_trie_node* node;

	while (ptr && trie_get_type(ptr) == TOMMY_TRIE_TYPE_TREE) {
		ptr = trie_get_tree(ptr)->map[(key >> shift) & TOMMY_TRIE_TREE_MASK];
		shift -= TOMMY_TRIE_TREE_BIT;
	}

	node = tommy_cast(tommy_trie_node*, ptr);
	if (node && node->index != key)
		node = 0;

	return node;
}
"""))
r("trie-expand-loop", "C09 C10", ("tommytrie.c", "@trie_bucket_insert", """static tommy_trie_tree* trie_tree_new(tommy_trie* trie)
{
	tommy_trie_tree* tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));
	tommy_uint_t i;

	++trie->node_count;
	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i)
		tree->map[i] = 0;

	return tree;
}

static void trie_bucket_insert(tommy_trie* trie, tommy_uint_t shift, tommy_trie_node** let_ptr, tommy_trie_node* insert, tommy_key_t key)
{
	tommy_trie_node* node;
	tommy_uint_t i;
	tommy_uint_t j;

	while (*let_ptr && trie_get_type(*let_ptr) == TOMMY_TRIE_TYPE_TREE) {
		let_ptr = &trie_get_tree(*let_ptr)->map[(key >> shift) & TOMMY_TRIE_TREE_MASK];
		shift -= TOMMY_TRIE_TREE_BIT;
	}

	node = *let_ptr;
	if (!node) {
		tommy_list_insert_first(let_ptr, insert);
		return;
	}

	if (node->index == key) {
		tommy_list_insert_tail_not_empty(node, insert);
		return;
	}

	for (;;) {
		tommy_trie_tree* tree = trie_tree_new(trie);

		*let_ptr = tommy_cast(tommy_trie_node*, trie_set_tree(tree));

		i = (node->index >> shift) & TOMMY_TRIE_TREE_MASK;
		j = (key >> shift) & TOMMY_TRIE_TREE_MASK;
		if (i != j)
			break;

		let_ptr = &tree->map[i];
		shift -= TOMMY_TRIE_TREE_BIT;
	}

	trie_get_tree(*let_ptr)->map[i] = node;
	tommy_list_insert_first(&trie_get_tree(*let_ptr)->map[j], insert);
}
"""))
r("trie-reduce-loop", "C09 C10", ("tommytrie.c", """reduce:
	/* go one level up */
	let_ptr = let_back[--level];

	tree = trie_get_tree(*let_ptr);
""", """	while (level) {
	/* go one level up */
	let_ptr = let_back[--level];

	tree = trie_get_tree(*let_ptr);
"""), ("tommytrie.c", """	/* repeat until more level */
	if (level)
		goto reduce;

	return remove;
""", """	}

	return remove;
"""))
r("inplace-insert-for", "C11", ("tommytrieinp.c", "@trie_inplace_bucket_insert", """static void trie_inplace_bucket_insert(tommy_uint_t shift, tommy_trie_inplace_node** let_ptr, tommy_trie_inplace_node* insert, tommy_key_t key)
{
	for (; *let_ptr != 0; shift -= TOMMY_TRIE_INPLACE_TREE_BIT) {
		tommy_trie_inplace_node* node = *let_ptr;

		if (node->key == key) {
			tommy_trie_inplace_list_insert_tail_not_empty(node, insert);
			return;
		}

		let_ptr = &node->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];
	}

	*let_ptr = tommy_trie_inplace_list_insert_first(insert);
}
"""))
r("inplace-init-memset", "C11", ("tommytrieinp.c", "	tommy_uint_t i;\n\n	for (i = 0; i < TOMMY_TRIE_INPLACE_BUCKET_MAX; ++i)\n		trie_inplace->bucket[i] = 0;\n\n	trie_inplace->count = 0;", "	memset(trie_inplace->bucket, 0, sizeof(trie_inplace->bucket));\n	trie_inplace->count = 0;"))
r("inplace-leaf-forward", "C11", ("tommytrieinp.c", """	i = TOMMY_TRIE_INPLACE_TREE_MAX - 1;
	while (i >= 0) {
		if (leaf->map[i]) {
			leaf_let_ptr = &leaf->map[i];
			leaf = *leaf_let_ptr;
			i = TOMMY_TRIE_INPLACE_TREE_MAX - 1;
			continue;
		}
		--i;
	}
""", """	i = 0;
	while (i < TOMMY_TRIE_INPLACE_TREE_MAX) {
		if (!leaf->map[i]) {
			++i;
			continue;
		}
		leaf_let_ptr = &leaf->map[i];
		leaf = *leaf_let_ptr;
		i = 0;
	}
"""))
r("inplace-remove-else", "C11", ("tommytrieinp.c", """	/* if we have a substitute */
	if (*let_ptr != 0) {
		/* copy the child pointers to the new one */
		node = *let_ptr;
		for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)
			node->map[i] = remove->map[i];

		return remove;
	}
""", """	/* if we have a substitute */
	node = *let_ptr;
	if (node) {
		i = TOMMY_TRIE_INPLACE_TREE_MAX;
		while (i-- > 0)
			node->map[i] = remove->map[i];
		return remove;
	}
"""))
r("inplace-bucket-for", "C11", ("tommytrieinp.c", """	while (node && node->key != key) {
		node = node->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];
		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;
	}

	return node;
}
""", """	for (;;) {
		if (!node)
			return 0;
		if (node->key == key)
			return node;
		node = node->map[(key >> shift) & TOMMY_TRIE_INPLACE_TREE_MASK];
		shift -= TOMMY_TRIE_INPLACE_TREE_BIT;
	}
}
"""))
r("usage-reorder", "C20", ("tommyhashtbl.c", "	return hashtable->bucket_max * (tommy_size_t)sizeof(hashtable->bucket[0])\n	       + tommy_hashtable_count(hashtable) * (tommy_size_t)sizeof(tommy_hashtable_node);", "	tommy_size_t size = hashtable->count * sizeof(tommy_hashtable_node);\n\n	size += (hashtable->bucket_mask + 1) * sizeof(tommy_hashtable_node*);\n	return size;"))
r("ilog-shift-loop", "C17", ("tommytypes.h", "@tommy_roundup_pow2_u32", """tommy_inline tommy_uint32_t tommy_roundup_pow2_u32(tommy_uint32_t value)
{
	tommy_uint_t s;

	--value;
	for (s = 1; s < 32; s <<= 1)
		value |= value >> s;

	return value + 1;
}
"""))
