PRE = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include "tommy.c"\n#define CK(c) do { if (!(c)) { printf("failed: %s\\n", #c); exit(1); } } while (0)\n'
SRT = PRE + '''struct o { tommy_node n; int k, seq; };
static int cmp(const void* a, const void* b) { return ((const struct o*)a)->k - ((const struct o*)b)->k; }
static int run(int n, unsigned seed, int keys) { struct o* v = malloc(n * sizeof *v); tommy_list l; tommy_node* i; struct o* p = 0; int c = 0, ok = 1;
 tommy_list_init(&l); for (int j = 0; j < n; ++j) { seed = seed * 1103515245u + 12345u; v[j].k = (seed >> 16) % keys; v[j].seq = j; tommy_list_insert_tail(&l, &v[j].n, &v[j]); }
 tommy_list_sort(&l, cmp);
 for (i = tommy_list_head(&l); i && c <= n; i = i->next) { struct o* q = i->data; if (p && (p->k > q->k || (p->k == q->k && p->seq > q->seq))) ok = 0; p = q; ++c; }
 if (c != n) ok = 0; if (n && tommy_list_tail(&l) != &p->n) ok = 0; free(v); return ok; }
int main(void) { for (int n = 0; n < 60; ++n) for (unsigned s = 0; s < 60; ++s) { CK(run(n, s, 2)); CK(run(n, s, 5)); CK(run(n, s, 100)); } return 0; }'''
def HT(name, extra=""): return PRE + '''#define T tommy_%s
#define F(x) tommy_%s_##x
struct o { %s n; int id; size_t h; };
static int cmpid(const void* a, const void* b) { return *(const int*)a != ((const struct o*)b)->id; }
static int any(const void* a, const void* b) { (void)a; (void)b; return 0; }
''' % (name, name, "tommy_node") + extra
TREE = PRE + '''struct o { tommy_node n; int k; };
static int ncmp;
static int cmp(const void* a, const void* b) { ++ncmp; return ((const struct o*)a)->k - ((const struct o*)b)->k; }
static int height(tommy_node* n, int* bad) { if (!n) return 0; int a = height(n->prev, bad), b = height(n->next, bad); if (a - b > 1 || b - a > 1) *bad = 1; if ((int)n->index != 1 + (a > b ? a : b)) *bad = 1; return 1 + (a > b ? a : b); }
'''
TRIE = PRE + '''struct o { tommy_trie_node n; unsigned k; };
static tommy_allocator al; static tommy_trie t;
static void start(void) { tommy_allocator_init(&al, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &al); }
static void ins(struct o* x, unsigned k) { x->k = k; tommy_trie_insert(&t, &x->n, x, k); }
'''
TRII = PRE + '''struct o { tommy_trie_inplace_node n; unsigned k; };
static tommy_trie_inplace t;
static void ins(struct o* x, unsigned k) { x->k = k; tommy_trie_inplace_insert(&t, &x->n, x, k); }
'''
CNT = '''static size_t live; static void* al_(size_t n) { size_t* p = malloc(n + 64); ++live; *p = n; return p + 8; } static void* cl_(size_t a, size_t b) { void* p = al_(a * b); memset(p, 0, a * b); return p; } static void fr_(void* p) { if (p) { --live; free((size_t*)p - 8); } }
#define tommy_malloc al_
#define tommy_calloc cl_
#define tommy_free fr_
'''
PREC = PRE.replace('#include "tommy.c"\n', CNT + '#include "tommy.c"\n')
SEEDS = [
 dict(id="sort-merge-tail", property="C02", subs=[("tommychain.h", "			if (first_i == first->tail) {\n				tommy_chain_concat(first_i, second_i);\n				first->tail = second->tail;", "			if (first_i == first->tail) {\n				tommy_chain_concat(first_i, second_i);\n				first->tail = second_i == second->head ? second->tail : second_i->next == second->tail ? second->tail : second->tail->prev;")],
  needs="a merge in which the last three or more nodes all come from the second run, after it was entered", breaks="the largest node is cut off the sorted list", demo=SRT),
 dict(id="hashtable-search-short-hash", property="C03", subs=[("tommyhashtbl.h", "		if (i->index == hash && cmp(cmp_arg, i->data) == 0)", "		if ((tommy_uint_t)i->index == (tommy_uint_t)hash && cmp(cmp_arg, i->data) == 0)")],
  needs="two 64 bit hashes equal in their low 32 bits", breaks="an object stored with another hash is found",
  demo=HT("hashtable") + '''int main(void) { struct o a, b; T t; F(init)(&t, 16); F(insert)(&t, &a.n, &a, 5 + ((size_t)1 << 32)); F(insert)(&t, &b.n, &b, 5); CK(F(search)(&t, any, 0, 5) == &b); F(done)(&t); return 0; }'''),
 dict(id="hashdyn-grow-reorders", property="C04", subs=[("tommyhashdyn.c", "				if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);", "				if (new_bucket[pos] && pos >= bucket_max && new_bucket[pos]->next)\n					tommy_list_insert_head_not_empty(&new_bucket[pos], j);\n				else if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);")],
  needs="three objects with an equal hash in the high half of the table when it grows", breaks="insertion order of objects with equal hash is lost by a resize",
  demo=HT("hashdyn") + '''int main(void) { struct o v[100]; T t; F(init)(&t); for (int i = 0; i < 3; ++i) { v[i].id = i; F(insert)(&t, &v[i].n, &v[i], 16 + 3); } for (int i = 3; i < 60; ++i) F(insert)(&t, &v[i].n, &v[i], (size_t)i << 20); for (int i = 0; i < 3; ++i) CK(F(remove)(&t, any, 0, 19) == &v[i]); F(done)(&t); return 0; }'''),
 dict(id="hashlin-split-reorders", property="C05", subs=[("tommyhashlin.c", "				if (*split[pos])\n					tommy_list_insert_tail_not_empty(*split[pos], j);", "				if (*split[pos] && j_next && pos)\n					tommy_list_insert_head_not_empty(split[pos], j);\n				else if (*split[pos])\n					tommy_list_insert_tail_not_empty(*split[pos], j);")],
  needs="three objects with equal hash moved to the high bucket by a split step", breaks="insertion order of objects with equal hash",
  demo=HT("hashlin") + '''int main(void) { struct o v[400]; T t; F(init)(&t); for (int i = 0; i < 3; ++i) { v[i].id = i; F(insert)(&t, &v[i].n, &v[i], 64 + 1); } for (int i = 3; i < 40; ++i) F(insert)(&t, &v[i].n, &v[i], (size_t)i << 20); for (int i = 0; i < 3; ++i) CK(F(remove)(&t, any, 0, 65) == &v[i]); F(done)(&t); return 0; }'''),
 dict(id="hashdyn-late-shrink", property="C06", subs=[("tommyhashdyn.c", "	if (hashdyn->count <= hashdyn->bucket_max / 8 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT)", "	if (hashdyn->count == hashdyn->bucket_max / 8 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT + 1)")],
  needs="removal of all objects", breaks="the table stays at twice its minimal size and larger for an empty content",
  demo=HT("hashdyn") + '''int main(void) { static struct o v[4000]; T t; F(init)(&t); for (int i = 0; i < 4000; ++i) F(insert)(&t, &v[i].n, &v[i], i * 7); for (int i = 0; i < 4000; ++i) { F(remove_existing)(&t, &v[i].n); CK(t.bucket_max == 16 || t.count * 8 >= t.bucket_max); } F(done)(&t); return 0; }'''),
 dict(id="tree-remove-absent", property="C07", subs=[("tommytree.c", "	if (c > 0) {\n		root->next = tommy_tree_remove_node(cmp, root->next, data, let);\n		return tommy_tree_balance(root);\n	}\n\n	/* found */", "	if (c > 0 && root->next) {\n		root->next = tommy_tree_remove_node(cmp, root->next, data, let);\n		return tommy_tree_balance(root);\n	}\n\n	if (c > 1)\n		return root;\n\n	/* found */")],
  needs="removal of an absent key just above the largest stored one", breaks="another object is removed",
  demo=TREE + '''int main(void) { struct o v[4]; tommy_tree t; tommy_tree_init(&t, cmp); v[0].k = 1; v[1].k = 2; tommy_tree_insert(&t, &v[0].n, &v[0]); CK(tommy_tree_remove(&t, &v[1]) == 0); CK(tommy_tree_search(&t, &v[0]) == &v[0]); return 0; }'''),
 dict(id="tree-stale-height", property="C08", subs=[("tommytree.c", "	if (!root)\n		return node;\n\n	root->next = tommy_tree_move_right(root->next, node);\n\n	return tommy_tree_balance(root);", "	if (!root)\n		return node;\n\n	root->next = tommy_tree_move_right(root->next, node);\n\n	return root->next != node || node == 0 ? tommy_tree_balance(root) : root;")],
  needs="removal of an object with two subtrees", breaks="the height recorded in the object that takes its place is stale",
  demo=TREE + '''int main(void) { static struct o v[300]; tommy_tree t; unsigned s = 1; tommy_tree_init(&t, cmp); for (int i = 0; i < 300; ++i) { s = s * 1103515245u + 12345u; v[i].k = s >> 8; tommy_tree_insert(&t, &v[i].n, &v[i]); } for (int i = 0; i < 300; ++i) { int bad = 0; tommy_tree_remove(&t, &v[i]); height(t.root, &bad); CK(!bad); } return 0; }'''),
 dict(id="arrayof-ref-rounded", property="C12", subs=[("tommyarrayof.h", "	return ptr + pos * array->element_size;", "	return ptr + pos * (array->element_size > 64 ? array->element_size & ~(tommy_size_t)1 : array->element_size);")],
  needs="odd element sizes above 64 bytes", breaks="neighbouring positions overlap",
  demo=PRE + '''int main(void) { tommy_arrayof a; tommy_arrayof_init(&a, 67); tommy_arrayof_grow(&a, 10); CK((char*)tommy_arrayof_ref(&a, 3) - (char*)tommy_arrayof_ref(&a, 2) == 67); tommy_arrayof_done(&a); return 0; }'''),
 dict(id="array-grow-down", property="C12", subs=[("tommyarray.c", "	if (array->count >= count)\n		return;\n	array->count = count;", "	if (array->count > count)\n		return;\n	if (array->count == count && count < array->bucket_max / 2)\n		return;\n	if (array->count == count && count > TOMMY_ARRAY_BIT << 8) {\n		array->bucket[array->bucket_bit - 1][count - 1] = 0;\n		return;\n	}\n	array->count = count;")],
  needs="a grow to exactly the present size of a large array", breaks="the last element is cleared",
  demo=PRE + '''int main(void) { tommy_array a; int x; tommy_array_init(&a); for (int i = 0; i < 4000; ++i) tommy_array_insert(&a, &x); tommy_array_grow(&a, 4000); CK(tommy_array_get(&a, 3999) == &x); tommy_array_done(&a); return 0; }'''),
 dict(id="arrayblk-extra-block", property="C13", subs=[("tommyarrayblk.c", "	block_max = (count + TOMMY_ARRAYBLK_SIZE - 1) / TOMMY_ARRAYBLK_SIZE;", "	block_max = count / TOMMY_ARRAYBLK_SIZE + 1;")],
  needs="a size that is a multiple of the block size", breaks="more blocks are allocated than the size requires",
  demo=PRE + '''int main(void) { tommy_arrayblk a; tommy_arrayblk_init(&a); tommy_arrayblk_grow(&a, TOMMY_ARRAYBLK_SIZE); CK(tommy_array_size(&a.block) == 1); tommy_arrayblk_done(&a); return 0; }'''),
 dict(id="arrayblkof-jump-block", property="C13", subs=[("tommyarrayblkof.c", "			++block_mac;\n", "			++block_mac;\n			if (block_mac + 8 < block_max)\n				tommy_array_set(&array->block, block_mac++, ptr);\n")],
  needs="a single grow by more than nine blocks", breaks="two blocks share their memory",
  demo=PRE + '''int main(void) { tommy_arrayblkof a; tommy_arrayblkof_init(&a, 4); tommy_arrayblkof_grow(&a, 12 * TOMMY_ARRAYBLKOF_SIZE); CK(tommy_arrayblkof_ref(&a, 0) != tommy_arrayblkof_ref(&a, TOMMY_ARRAYBLKOF_SIZE)); return 0; }'''),
 dict(id="alloc-large-aligned", property="C14", subs=[("tommyalloc.c", "		if (size < sizeof(tommy_allocator_entry) + alloc->align_size + alloc->block_size)\n", "		if (size < sizeof(tommy_allocator_entry) + alloc->block_size)\n")],
  needs="a block size just below the segment size and an alignment above that of malloc", breaks="the only block of a segment reaches outside of it",
  demo=PRE + '''int main(void) { tommy_allocator a; tommy_allocator_init(&a, 3968, 128); for (int i = 0; i < 20; ++i) memset(tommy_allocator_alloc(&a), 1, 3968); tommy_allocator_done(&a); return 0; }'''),
 dict(id="hash32-overread", property="C15", subs=[("tommyhash.c", "	case 7 : b += ((tommy_uint32_t)key[6]) << 16; /* fallthrough */\n	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */\n	case 5 : b += key[4]; /* fallthrough */\n	case 4 :\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c;\n", "	case 7 :\n		b += tommy_le_uint32_read(key + 4) & 0xffffff;\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */\n	case 5 : b += key[4]; /* fallthrough */\n	case 4 :\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c;\n")],
  needs="a key of length 7 modulo 12 at the end of a page or allocation", breaks="a byte after the key is read",
  demo=PRE + '''int main(void) { char* p = malloc(7); memset(p, 3, 7); volatile unsigned h = tommy_hash_u32(0, p, 7); (void)h; return 0; }'''),
 dict(id="strhash-last-char", property="C16", subs=[("tommyhash.c", "				c += v & m[0];\n				if (v & m[1]) {\n					c += v & m[1];\n					if (v & m[2])\n						c += v & m[2];", "				c += v & m[0];\n				if (v & m[1]) {\n					c += v & m[1];\n					if (v & m[2] & m[2] << 1)\n						c += v & m[2];")],
  needs="a string of length 11 modulo 12 whose last byte is 1", breaks="the last byte does not reach the result",
  demo=PRE + '''int main(void) { CK(tommy_strhash_u32(0, "abcdefghij\\001") != tommy_strhash_u32(0, "abcdefghij")); return 0; }'''),
 dict(id="roundup-64", property="C17", subs=[("tommytypes.h", "	value |= value >> 16;\n	value |= value >> 32;", "	value |= value >> 16;\n	value |= value >> 24;")],
  needs="values above 2^56", breaks="the result is not a power of two", demo=PRE + '''int main(void) { for (int i = 0; i < 63; ++i) CK(tommy_roundup_pow2_u64(((uint64_t)1 << i) + (i > 1)) == (uint64_t)1 << (i + (i > 1))); return 0; }'''),
 dict(id="hashlin-foreach-unsplit", property="C18", subs=[("tommyhashlin.c", "	/* number of valid buckets */\n	bucket_max = hashlin->low_max + hashlin->split;\n\n	for (pos = 0; pos < bucket_max; ++pos) {\n		tommy_hashlin_node* node = *tommy_hashlin_pos(hashlin, pos);\n\n		while (node) {\n			void* data = node->data;\n			node = node->next;\n			func(arg, data);", "	/* number of valid buckets */\n	bucket_max = hashlin->split ? hashlin->low_max + hashlin->split - (hashlin->state == TOMMY_HASHLIN_STATE_SHRINK) : hashlin->low_max;\n\n	for (pos = 0; pos < bucket_max; ++pos) {\n		tommy_hashlin_node* node = *tommy_hashlin_pos(hashlin, pos);\n\n		while (node) {\n			void* data = node->data;\n			node = node->next;\n			func(arg, data);")],
  needs="iteration in the middle of a shrink", breaks="the objects of the last bucket not yet merged are not visited",
  demo=HT("hashlin", "static int n; static void f(void* a, void* b) { (void)a; (void)b; ++n; }\n") + '''int main(void) { static struct o v[600]; T t; F(init)(&t); for (int i = 0; i < 600; ++i) F(insert)(&t, &v[i].n, &v[i], i); for (int i = 0; i < 600; ++i) { F(remove_existing)(&t, &v[i].n); n = 0; F(foreach_arg)(&t, f, 0); CK(n == (int)F(count)(&t)); } F(done)(&t); return 0; }'''),
 dict(id="tree-foreach-after-free", property="C18", subs=[("tommytree.c", "	/* make a copy in case func is free() */\n	next = root->next;\n\n	func(arg, root->data);\n\n	tommy_tree_foreach_arg_node(next, func, arg);", "	next = root->prev;\n\n	func(arg, root->data);\n\n	tommy_tree_foreach_arg_node(next ? root->next : 0, func, arg);\n	if (!next)\n		tommy_tree_foreach_arg_node(root->next, func, arg);")],
  needs="a function that releases the objects", breaks="objects are accessed after their call",
  demo=TREE + '''static void f(void* a, void* x) { (void)a; free(x); }
int main(void) { tommy_tree t; tommy_tree_init(&t, cmp); for (int i = 0; i < 20; ++i) { struct o* x = malloc(sizeof *x); x->k = i; tommy_tree_insert(&t, &x->n, x); } tommy_tree_foreach_arg(&t, f, 0); return 0; }'''),
 dict(id="hashdyn-shrink-leak", property="C19", subs=[("tommyhashdyn.c", "	tommy_free(hashdyn->bucket);\n\n	/* setup */", "	if (new_bucket_bit > bucket_bit || new_bucket_bit > TOMMY_HASHDYN_BIT)\n		tommy_free(hashdyn->bucket);\n\n	/* setup */")],
  needs="shrinking back to the minimal size", breaks="the replaced vector is never released",
  demo=HT("hashdyn").replace(PRE, PREC) + '''int main(void) { static struct o v[100]; T t; F(init)(&t); for (int i = 0; i < 100; ++i) F(insert)(&t, &v[i].n, &v[i], i); for (int i = 0; i < 100; ++i) F(remove_existing)(&t, &v[i].n); F(done)(&t); CK(live == 0); return 0; }'''),
 dict(id="trie-usage-nodes", property="C20", subs=[("tommytrie.c", "	return tommy_trie_count(trie) * (tommy_size_t)sizeof(tommy_trie_node)\n", "	return (tommy_uint_t)(tommy_trie_count(trie) * sizeof(tommy_trie_node))\n")],
  needs="more than 2^27 nodes", breaks="the reported memory wraps", demo=TRIE + '''int main(void) { start(); t.count = (size_t)1 << 28; CK(tommy_trie_memory_usage(&t) == ((size_t)1 << 33)); return 0; }'''),
 dict(id="tree-count-duplicate", property="C20", subs=[("tommytree.c", "	if (insert == node)\n		++tree->count;", "	if (insert->data == data)\n		++tree->count;")],
  needs="insertion of the object that is already stored", breaks="the count grows without a new element",
  demo=TREE + '''int main(void) { struct o a; tommy_node n2; tommy_tree t; tommy_tree_init(&t, cmp); a.k = 1; tommy_tree_insert(&t, &a.n, &a); tommy_tree_insert(&t, &n2, &a); CK(tommy_tree_count(&t) == 1); return 0; }'''),
]
