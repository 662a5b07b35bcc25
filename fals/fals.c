#include <limits.h>
/* Search for a failing input, run against the real code of /repo after a proof obligation failed.
 * usage: fals PROPERTY SEED SECONDS [CASE]     exit 0: nothing found, 1: failing input found (trace printed) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <assert.h>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
void __sanitizer_set_death_callback(void (*)(void));
#else
#define __asan_poison_memory_region(a,b)
#define __asan_unpoison_memory_region(a,b)
#define __sanitizer_set_death_callback(a)
#endif

/* ------------------------------------------------------------------ trace and failure */
static char g_log[1 << 16]; static size_t g_logn; static unsigned long g_case; static unsigned long g_seed; static const char* g_prop; static unsigned long g_ops;
static int g_done;
static void lg(const char* f, ...)
{
	va_list a; char b[256]; int n;
	va_start(a, f); n = vsnprintf(b, sizeof b, f, a); va_end(a);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	if (g_logn + n + 1 >= sizeof g_log) { size_t h = sizeof g_log / 2; memmove(g_log, g_log + h, g_logn - h); g_logn -= h; }
	memcpy(g_log + g_logn, b, n); g_logn += n; g_log[g_logn] = 0;
}
static void report(const char* msg)
{
	if (g_done) return;
	g_done = 1;
	printf("FAIL property=%s seed=%lu case=%lu: %s\n", g_prop, g_seed, g_case, msg);
	printf("operations of the case (last ones):\n%s\n", g_logn > 6000 ? g_log + g_logn - 6000 : g_log);
	fflush(stdout);
}
static void fail(const char* f, ...)
{
	va_list a; char b[512];
	va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
	report(b); _exit(1);
}
#define CK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static void death(void) { report("sanitizer or abort (see stderr)"); }
static void onsig(int s) { char b[64]; snprintf(b, sizeof b, s == SIGALRM ? "does not terminate" : "signal %d", s); report(b); _exit(1); }

/* ------------------------------------------------------------------ random numbers */
static uint64_t rs;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static uint64_t rn(uint64_t n) { return n ? rnd() % n : 0; }

/* ------------------------------------------------------------------ tracked heap of the library */
struct blk { void* p; size_t n; struct blk* nx; int seq; };
#define HB 4096
static struct blk* hb[HB]; static size_t h_bytes, h_blocks; static int h_seq; static int h_mis; static size_t h_peak;
static void* vf_alloc(size_t n, int zero)
{
	struct blk* b = malloc(sizeof *b); size_t off = h_mis ? 16 * 1 + 8 * (size_t)(rn(2)) : 0;
	char* p = malloc(n + off + 1);
	if (!p) { report("allocation of an absurd size"); _exit(1); }
	if (off) __asan_poison_memory_region(p, off & ~(size_t)7);
	__asan_poison_memory_region(p + off + n, 1);
	p += off;
	memset(p, zero ? 0 : 0xA5, n);
	b->p = p; b->n = n; b->seq = h_seq++; b->nx = hb[((uintptr_t)p >> 3) % HB]; hb[((uintptr_t)p >> 3) % HB] = b;
	h_bytes += n; h_blocks++; if (h_bytes > h_peak) h_peak = h_bytes;
	/* remember the real start in a side field */
	b->seq = (int)off;
	return p;
}
static void* vf_malloc(size_t n) { return vf_alloc(n, 0); }
static void* vf_calloc(size_t a, size_t b) { return vf_alloc(a * b, 1); }
static void vf_free(void* p)
{
	struct blk** q; struct blk* b;
	if (!p) return;
	for (q = &hb[((uintptr_t)p >> 3) % HB]; *q; q = &(*q)->nx) if ((*q)->p == p) break;
	if (!*q) fail("free() of memory that was not obtained or is already released");
	b = *q; *q = b->nx; h_bytes -= b->n; h_blocks--;
	free((char*)p - b->seq); free(b);
}
static void* vf_realloc(void* p, size_t n)
{
	struct blk* b; void* r;
	if (!p) return vf_malloc(n);
	for (b = hb[((uintptr_t)p >> 3) % HB]; b; b = b->nx) if (b->p == p) break;
	if (!b) fail("realloc() of unknown memory");
	r = vf_malloc(n); memcpy(r, p, b->n < n ? b->n : n); vf_free(p); return r;
}
static int owned(const void* p, size_t n)
{
	int i; struct blk* b;
	for (i = 0; i < HB; ++i) for (b = hb[i]; b; b = b->nx) if ((char*)p >= (char*)b->p && (char*)p + n <= (char*)b->p + b->n) return 1;
	return 0;
}
#define HEAP0() do { CK(h_blocks == 0, "%lu pieces of memory are not released", (unsigned long)h_blocks); } while (0)

#define REAL_MALLOC(n) real_malloc(n)
static void* real_malloc(size_t n) { return malloc(n); }
static void real_free(void* p) { free(p); }
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#include "tommy.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#include "tommy.h"
#include "tommychain.h"

/* ------------------------------------------------------------------ objects */
struct ob { tommy_node n; int id; int key; uint64_t hash; uint64_t pay; int in; struct ob* d; /* object stored with the node: itself, or another one */ };
static struct ob* newob(int id, int key, uint64_t h)
{
	struct ob* o = real_malloc(sizeof *o); memset(o, 0xEE, sizeof *o); o->id = id; o->key = key; o->hash = h; o->pay = 0x1234567890abcdefULL ^ id; o->in = 1; o->d = o; return o;
}
static void ckob(struct ob* o) { CK(o->pay == (0x1234567890abcdefULL ^ o->id), "object %d altered", o->id); }

/* a growable sequence of objects: the model */
struct seq { struct ob** v; size_t n, cap; };
static void sq_ins(struct seq* s, size_t at, struct ob* o) { if (s->n == s->cap) { s->cap = s->cap ? 2 * s->cap : 16; s->v = realloc(s->v, s->cap * sizeof *s->v); } memmove(s->v + at + 1, s->v + at, (s->n - at) * sizeof *s->v); s->v[at] = o; s->n++; }
static struct ob* sq_del(struct seq* s, size_t at) { struct ob* o = s->v[at]; memmove(s->v + at, s->v + at + 1, (s->n - at - 1) * sizeof *s->v); s->n--; return o; }
static void sq_free(struct seq* s, int obs) { size_t i; if (obs) for (i = 0; i < s->n; ++i) free(s->v[i]); free(s->v); s->v = 0; s->n = s->cap = 0; }

/* ------------------------------------------------------------------ C01, C02, C18 lists */
static void ck_list(tommy_list* l, struct seq* s)
{
	tommy_node* i; tommy_node* p = 0; size_t k = 0;
	CK((tommy_list_empty(l) != 0) == (s->n == 0), "list_empty disagrees with the sequence (%lu elements)", (unsigned long)s->n);
	for (i = tommy_list_head(l); i; p = i, i = i->next, ++k) {
		CK(k < s->n, "the walk does not end after %lu elements", (unsigned long)s->n);
		CK(i == &s->v[k]->n, "position %lu holds a wrong node", (unsigned long)k);
		CK(i->data == s->v[k], "position %lu carries a wrong object", (unsigned long)k);
		if (p) CK(i->prev == p, "position %lu: backward link is wrong", (unsigned long)k);
		ckob(i->data);
	}
	CK(k == s->n, "the walk ends after %lu of %lu elements", (unsigned long)k, (unsigned long)s->n);
	CK(tommy_list_tail(l) == (s->n ? &s->v[s->n - 1]->n : 0), "list_tail is wrong");
	if (s->n) CK(tommy_list_head(l)->prev == p, "head->prev is not the tail");
	if (s->n < 50 || rn(8) == 0) CK(tommy_list_count(l) == s->n, "list_count %lu instead of %lu", (unsigned long)tommy_list_count(l), (unsigned long)s->n);
}
static int cmp_calls;
static int cmp_mode;
static int cmp_key(const void* a, const void* b)
{
	const struct ob* x = a; const struct ob* y = b; cmp_calls++;
	switch (cmp_mode) {
	case 1: return x->key < y->key ? -1000000 : x->key > y->key ? 2000000000 : 0;
	case 2: return x->key < y->key ? INT32_MIN : x->key > y->key ? 1 : 0;
	default: return x->key < y->key ? -1 : x->key > y->key;
	}
}
static int sq_cmp(const void* a, const void* b) { const struct ob* x = *(struct ob**)a; const struct ob* y = *(struct ob**)b; return x->key != y->key ? (x->key < y->key ? -1 : 1) : x->in < y->in ? -1 : 1; }
static void do_sort(tommy_list* l, struct seq* s)
{
	size_t i; uint64_t* k = malloc(sizeof(uint64_t) * (s->n + 1));
	cmp_mode = rn(3);
	for (i = 0; i < s->n; ++i) { s->v[i]->in = i; k[i] = s->v[i]->n.index = rnd(); s->v[i]->hash = k[i]; }
	tommy_list_sort(l, cmp_key);
	if (s->n) qsort(s->v, s->n, sizeof *s->v, sq_cmp);
	for (i = 0; i < s->n; ++i) CK(s->v[i]->n.index == s->v[i]->hash, "sort altered a key field");
	free(k); ck_list(l, s);
}
static void t_list(int sort, size_t maxops)
{
	enum { L = 3 };
	tommy_list l[L]; struct seq s[L]; int i, id = 0; size_t op, nops = 1 + rn(maxops); memset(s, 0, sizeof s);
	for (i = 0; i < L; ++i) { memset(&l[i], 0xCC, sizeof l[i]); tommy_list_init(&l[i]); ck_list(&l[i], &s[i]); }
	for (op = 0; op < nops; ++op) {
		int a = rn(L), b = rn(L); struct ob* o; size_t k;
		switch (rn(sort ? 8 : 7)) {
		case 0: case 1: o = newob(id++, rn(rn(2) ? 3 : 1000), 0); lg("insert_head(l%d,#%d key %d)\n", a, o->id, o->key); tommy_list_insert_head(&l[a], &o->n, o); sq_ins(&s[a], 0, o); break;
		case 2: case 3: o = newob(id++, rn(rn(2) ? 3 : 1000), 0); lg("insert_tail(l%d,#%d key %d)\n", a, o->id, o->key); tommy_list_insert_tail(&l[a], &o->n, o); sq_ins(&s[a], s[a].n, o); break;
		case 4: case 5:
			if (!s[a].n) break;
			k = rn(3) == 0 ? 0 : rn(2) ? s[a].n - 1 : rn(s[a].n); lg("remove_existing(l%d, position %lu)\n", a, (unsigned long)k);
			o = sq_del(&s[a], k); { void* r = tommy_list_remove_existing(&l[a], &o->n); CK(r == o, "remove_existing returns a wrong object"); } ckob(o); free(o); break;
		case 6:
			if (a == b || rn(3)) break;
			lg("concat(l%d,l%d)\n", a, b); tommy_list_concat(&l[a], &l[b]);
			for (k = 0; k < s[b].n; ++k) sq_ins(&s[a], s[a].n, s[b].v[k]);
			s[b].n = 0; tommy_list_init(&l[b]); break;
		case 7: lg("sort(l%d)\n", a); do_sort(&l[a], &s[a]); break;
		}
		for (i = 0; i < L; ++i) ck_list(&l[i], &s[i]);
	}
	for (i = 0; i < L; ++i) sq_free(&s[i], 1);
}
static void t_sortbig(void)
{
	tommy_list l; struct seq s = {0}; size_t n, i; int pat = rn(8), dist;
	n = rn(4) == 0 ? rn(40000) : rn(2) ? rn(600) : rn(9); if (rn(4) == 0) { n = (size_t)1 << rn(15); n += rn(3); n -= rn(3); if (n > 60000) n = 0; }
	dist = rn(2) ? 1 + rn(5) : 1 + rn(n + 1);
	lg("sort of %lu elements, pattern %d, %d distinct keys\n", (unsigned long)n, pat, dist);
	tommy_list_init(&l);
	for (i = 0; i < n; ++i) {
		int k; struct ob* o;
		switch (pat) { case 0: k = i; break; case 1: k = n - i; break; case 2: k = 0; break; case 3: k = i ^ 1; break; case 4: k = i % dist; break; case 5: k = (i * 7919) % (n + 1); break; default: k = rn(dist); }
		o = newob(i, k, 0); if (n < 40) lg("key %d\n", k);
		tommy_list_insert_tail(&l, &o->n, o); sq_ins(&s, s.n, o);
	}
	do_sort(&l, &s);
	sq_free(&s, 1);
}
/* every sequence of keys over a small alphabet, up to a small length */
static void t_sortall(unsigned n, unsigned m)
{
	unsigned long c, t = 1; unsigned i;
	for (i = 0; i < n; ++i) t *= m;
	for (c = 0; c < t; ++c) {
		tommy_list l; struct seq s = {0}; unsigned long x = c; g_logn = 0; lg("sort of keys");
		tommy_list_init(&l);
		for (i = 0; i < n; ++i) { struct ob* o = newob(i, x % m, 0); lg(" %lu", x % m); x /= m; tommy_list_insert_tail(&l, &o->n, o); sq_ins(&s, s.n, o); }
		do_sort(&l, &s); sq_free(&s, 1);
	}
}

/* iteration with release */
static struct seq* it_s; static size_t it_k; static int it_free; static void* it_arg; static int it_order;
static void it_visit(void* obj)
{
	struct ob* o = obj;
	if (it_order) { CK(it_k < it_s->n, "the function is called too often"); CK(it_s->v[it_k] == o, "call %lu gets a wrong object", (unsigned long)it_k); }
	else { size_t i; for (i = 0; i < it_s->n; ++i) if (it_s->v[i] == o) break; CK(i < it_s->n, "the function is called with something that is not stored"); CK(o->in == 1, "the function is called twice for an object"); }
	it_k++;
	if (it_free) { memset(o, 0xDD, sizeof *o); free(o); if (!it_order) { size_t i; for (i = 0; i < it_s->n; ++i) if (it_s->v[i] == o) { it_s->v[i] = 0; break; } } }
	else o->in = 2;
}
static void it_visit_arg(void* arg, void* obj) { CK(arg == it_arg, "the function gets a wrong argument"); it_visit(obj); }
static void it_begin(struct seq* s, int fr, int order) { size_t i; it_s = s; it_k = 0; it_free = fr; it_order = order; it_arg = (void*)(uintptr_t)rnd(); for (i = 0; i < s->n; ++i) s->v[i]->in = 1; }
static void it_end(void) { CK(it_k == it_s->n, "the function is called %lu times for %lu stored objects", (unsigned long)it_k, (unsigned long)it_s->n); if (it_free) it_s->n = 0; }
static void t_list_foreach(void)
{
	tommy_list l; struct seq s = {0}; size_t i, n = rn(40); int rep;
	tommy_list_init(&l); lg("list of %lu elements\n", (unsigned long)n);
	for (i = 0; i < n; ++i) { struct ob* o = newob(i, i, 0); if (rn(2)) { tommy_list_insert_tail(&l, &o->n, o); sq_ins(&s, s.n, o); } else { tommy_list_insert_head(&l, &o->n, o); sq_ins(&s, 0, o); } }
	for (rep = 0; rep < 2; ++rep) { it_begin(&s, 0, 1); lg("foreach\n"); if (rep) tommy_list_foreach_arg(&l, it_visit_arg, it_arg); else tommy_list_foreach(&l, it_visit); it_end(); ck_list(&l, &s); }
	it_begin(&s, 1, 1); lg("foreach releasing\n"); if (rn(2)) tommy_list_foreach_arg(&l, it_visit_arg, it_arg); else tommy_list_foreach(&l, it_visit); it_end();
	sq_free(&s, 0);
}

/* ------------------------------------------------------------------ hashtables: one generic driver */
enum { F_DATA = 1, F_SIZE = 2, F_ITER = 4, F_LIFE = 8, F_COUNT = 16 };
static int cmp_found(const void* arg, const void* obj) { static const int not0[] = { 1, -1, INT_MIN, INT_MAX, 256, -65536 }; int k = ((const struct ob*)obj)->key, a = *(const int*)arg; return k == a ? 0 : not0[(unsigned)(k + 3 * a) % 6]; }
static struct seq gs; /* members in insertion order */
static size_t find_first(uint64_t h, int key) { size_t i; for (i = 0; i < gs.n; ++i) if (gs.v[i]->hash == h && (key < 0 || gs.v[i]->d->key == key)) return i; return gs.n; }
static struct seq dead; static int g_alias; /* objects removed from a table in which objects may be stored twice */
static void drop(struct ob* o) { if (g_alias) sq_ins(&dead, dead.n, o); else free(o); }

#define GEN(T, NT, INIT, MINB) \
static void ck_bucket_##T(tommy_##T* t, uint64_t h) \
{ \
	size_t i, steps = 0; NT* b = tommy_##T##_bucket(t, h); \
	for (i = 0; i < gs.n; ++i) if (gs.v[i]->hash == h) { \
		while (b && b->index != h) { CK(++steps <= gs.n, "bucket walk does not end"); b = b->next; } \
		CK(b, "the bucket of hash %llx misses object #%d", (unsigned long long)h, gs.v[i]->id); \
		CK(b == &gs.v[i]->n && b->data == gs.v[i]->d, "bucket of hash %llx: wrong order or wrong member (got other than #%d)", (unsigned long long)h, gs.v[i]->id); \
		b = b->next; ++steps; } \
	while (b) { CK(b->index != h, "bucket of hash %llx holds an object that is not stored", (unsigned long long)h); CK(++steps <= gs.n, "bucket walk does not end"); b = b->next; } \
} \
static void ck_all_##T(tommy_##T* t, int fl, int deep) \
{ \
	if (fl & F_COUNT) { CK(tommy_##T##_count(t) == gs.n, "count %lu instead of %lu", (unsigned long)tommy_##T##_count(t), (unsigned long)gs.n); \
	CK(tommy_##T##_memory_usage(t) == h_bytes + gs.n * sizeof(NT), "memory_usage %lu instead of %lu", (unsigned long)tommy_##T##_memory_usage(t), (unsigned long)(h_bytes + gs.n * sizeof(NT))); } \
	if ((fl & F_COUNT) && rn(50) == 0) { size_t c = t->count, x = rnd() >> (7 + rn(50)); t->count = x; CK(tommy_##T##_memory_usage(t) == h_bytes + x * sizeof(NT), "memory_usage with %lu elements", (unsigned long)x); t->count = c; } \
	if (deep && (fl & F_DATA)) { size_t i; if (gs.n < 300) for (i = 0; i < gs.n; ++i) { ck_bucket_##T(t, gs.v[i]->hash); ckob(gs.v[i]); } } \
} \
static void t_##T(int fl, size_t maxops, size_t maxlive) \
{ \
	tommy_##T t; size_t op, nops = 1 + rn(maxops), req = 0; int id = 0, phase = 0; uint64_t hm; size_t target; int keys = 1 + rn(4); int big = maxlive > 2000; \
	gs.n = 0; memset(&t, 0xCC, sizeof t); g_alias = !big && !(fl & F_ITER) && rn(6) == 0; \
	switch (rn(6)) { case 0: hm = 0; break; case 1: hm = 3; break; case 2: hm = 0xFFFFFFFFFFFFFFFFULL; break; case 3: hm = 255; break; case 4: hm = 0xFFFFFFFF00000000ULL; break; default: hm = 0xFFFF; } \
	if (big) hm = ~0ULL; \
	req = rn(3) ? rn(70) : rn(60) ? rn(5000) : rn(5000000); lg("init(%lu) hash mask %llx\n", (unsigned long)req, (unsigned long long)hm); (void)req; INIT; \
	if (fl & F_SIZE) size_##T(&t, req, 0); \
	target = rn(maxlive) + 1; \
	for (op = 0; op < nops; ++op) { \
		int r = rn(16); uint64_t h = rnd() & hm; size_t k; struct ob* o; void* res; int key; int ins = 0; \
		if (rn(4) == 0 && gs.n) h = gs.v[rn(gs.n)]->hash; \
		if (rn(60) == 0) h ^= 1ULL << rn(64); \
		if (phase == 0 && gs.n >= target) { phase = 1; target = rn(3) ? rn(gs.n) : 0; } else if (phase == 1 && gs.n <= target) { phase = 0; target = rn(maxlive) + 1; } \
		if (r < (phase == 0 ? 11 : 2)) { \
			o = newob(id++, rn(keys), h); if (g_alias && gs.n && rn(3) == 0) o->d = gs.v[gs.n - 1 - rn(gs.n < 3 ? gs.n : 3)]->d; \
			lg("insert(node of #%d, object #%d key %d hash %llx)\n", o->id, o->d->id, o->d->key, (unsigned long long)h); \
			tommy_##T##_insert(&t, &o->n, o->d, h); sq_ins(&gs, gs.n, o); ins = 1; \
			CK(o->n.data == o->d && o->n.index == h, "insert does not record object and hash"); \
		} else if (r < 13 && gs.n) { \
			k = big ? gs.n - 1 - rn(gs.n < 8 ? gs.n : 8) : rn(gs.n); \
			if (rn(2)) { o = gs.v[k]; lg("remove_existing(#%d)\n", o->id); res = tommy_##T##_remove_existing(&t, &o->n); CK(res == o->d, "remove_existing returns a wrong object"); sq_del(&gs, k); ckob(o); drop(o); } \
			else { key = rn(keys); h = rn(8) ? gs.v[k]->hash : h; if (rn(4)) key = gs.v[k]->d->key; \
				k = find_first(h, key); lg("remove(key %d hash %llx)\n", key, (unsigned long long)h); \
				res = tommy_##T##_remove(&t, cmp_found, &key, h); \
				CK(res == (k < gs.n ? (void*)gs.v[k]->d : 0), "remove takes out a wrong object (or none)"); \
				if (k < gs.n) drop(sq_del(&gs, k)); } \
			if (g_alias && rn(4) == 0) ck_bucket_##T(&t, h); \
		} else if (r < 15 || !gs.n) { key = rn(keys); if (gs.n && rn(2)) { k = rn(gs.n); h = gs.v[k]->hash; key = gs.v[k]->d->key; } k = find_first(h, key); lg("search(key %d hash %llx)\n", key, (unsigned long long)h); res = tommy_##T##_search(&t, cmp_found, &key, h); if (fl & F_DATA) CK(res == (k < gs.n ? (void*)gs.v[k]->d : 0), "search finds a wrong object (or none)"); } \
		else ck_bucket_##T(&t, h); \
		ck_all_##T(&t, fl, big ? 0 : (gs.n < 24 || rn(16) == 0)); \
		if ((fl & F_DATA) && rn(big ? 64 : 4) == 0) ck_bucket_##T(&t, h); \
		if (fl & F_SIZE) size_##T(&t, req, ins); \
		if ((fl & F_ITER) && rn(big ? 2000 : 40) == 0) { it_begin(&gs, 0, 0); lg("foreach\n"); if (rn(2)) tommy_##T##_foreach_arg(&t, it_visit_arg, it_arg); else tommy_##T##_foreach(&t, it_visit); it_end(); ck_all_##T(&t, fl, 1); } \
	} \
	ck_all_##T(&t, fl, 1); \
	if (big && (fl & F_DATA)) { size_t i; for (i = 0; i < gs.n; i += 1 + gs.n / 97) ck_bucket_##T(&t, gs.v[i]->hash); } \
	if (fl & F_ITER) { it_begin(&gs, 1, 0); lg("foreach releasing\n"); if (rn(2)) tommy_##T##_foreach_arg(&t, it_visit_arg, it_arg); else tommy_##T##_foreach(&t, it_visit); it_end(); lg("done\n"); tommy_##T##_done(&t); HEAP0(); } \
	else { lg("done\n"); tommy_##T##_done(&t); if (fl & (F_LIFE | F_DATA)) HEAP0(); { size_t i; for (i = 0; i < gs.n; ++i) ckob(gs.v[i]); } } \
	while (h_blocks) { int i; for (i = 0; i < HB; ++i) while (hb[i]) vf_free(hb[i]->p); } \
	sq_free(&gs, 1); sq_free(&dead, 1); g_alias = 0; \
} \
static void t_huge_##T(int fl, size_t n) \
{ \
	tommy_##T t; size_t i, req = 0; struct ob* v = malloc(n * sizeof *v); uint64_t m = rnd() | 1; (void)req; gs.n = 0; lg("init, insert of %lu objects, then their removal\n", (unsigned long)n); INIT; \
	for (i = 0; i < n; ++i) { v[i].key = i; v[i].hash = i * m; tommy_##T##_insert(&t, &v[i].n, &v[i], v[i].hash); gs.n = i + 1; if (fl & F_SIZE) size_##T(&t, req, 1); if (fl & F_COUNT) ck_all_##T(&t, fl, 0); } \
	for (i = 0; i < n; ++i) { if ((fl & F_DATA) && i % 16 == 0) { CK(tommy_##T##_search(&t, cmp_found, &v[i].key, v[i].hash) == &v[i], "object %lu of %lu is not found", (unsigned long)i, (unsigned long)n); } CK(tommy_##T##_remove_existing(&t, &v[i].n) == &v[i], "remove_existing"); gs.n = n - i - 1; if (fl & F_SIZE) size_##T(&t, req, 0); if (fl & F_COUNT) ck_all_##T(&t, fl, 0); } \
	gs.n = 0; tommy_##T##_done(&t); HEAP0(); free(v); \
}
static int pow2(size_t n) { return n && !(n & (n - 1)); }
static void size_hashtable(tommy_hashtable* t, size_t req, int ins)
{
	size_t b = (tommy_hashtable_memory_usage(t) - tommy_hashtable_count(t) * sizeof(tommy_node)) / sizeof(void*); (void)ins;
	b = h_bytes / sizeof(void*);
	CK(pow2(b) && b >= req && b >= 16, "%lu buckets for a request of %lu", (unsigned long)b, (unsigned long)req);
	CK(b == 16 || b < 2 * req || req <= 16, "%lu buckets for a request of %lu", (unsigned long)b, (unsigned long)req);
}
static void size_hashdyn(tommy_hashdyn* t, size_t req, int ins)
{
	size_t b = h_bytes / sizeof(void*); (void)req; (void)t;
	CK(pow2(b) && b >= 16, "%lu buckets", (unsigned long)b);
	if (ins) CK(gs.n <= b / 2, "%lu objects in %lu buckets after an insertion", (unsigned long)gs.n, (unsigned long)b);
	CK(b == 16 || gs.n * 8 + 8 >= b, "%lu buckets for only %lu objects", (unsigned long)b, (unsigned long)gs.n);
}
static void size_hashlin(tommy_hashlin* t, size_t req, int ins)
{
	size_t b = h_bytes / sizeof(void*); (void)req; (void)t;
	CK(pow2(b) && b >= 64, "%lu buckets", (unsigned long)b);
	if (ins) CK(gs.n <= b / 2 + 1, "%lu objects in %lu buckets after an insertion", (unsigned long)gs.n, (unsigned long)b);
	CK(b == 64 || gs.n * 16 + 16 >= b, "%lu buckets for only %lu objects", (unsigned long)b, (unsigned long)gs.n);
}
GEN(hashtable, tommy_hashtable_node, tommy_hashtable_init(&t, req), 16)
GEN(hashdyn, tommy_hashdyn_node, tommy_hashdyn_init(&t), 16)
GEN(hashlin, tommy_hashlin_node, tommy_hashlin_init(&t), 64)

/* ------------------------------------------------------------------ tree */
static int tr_h(tommy_tree_node* n, int depth) { int a, b; if (!n) return 0; CK(depth < 200, "the tree is not finite"); a = tr_h(n->prev, depth + 1); b = tr_h(n->next, depth + 1); CK(a - b <= 1 && b - a <= 1, "subtrees of object #%d have heights %d and %d", ((struct ob*)n->data)->id, a, b); return 1 + (a > b ? a : b); }
static struct seq ts; static size_t ts_k;
static void ts_visit(void* o) { CK(ts_k < ts.n && ts.v[ts_k] == o, "in-order traversal: wrong object at position %lu", (unsigned long)ts_k); ts_k++; }
static size_t ts_find(int key) { size_t i; for (i = 0; i < ts.n; ++i) if (ts.v[i]->key >= key) break; return i; }
static int cmp_extra(const void* a, const void* b) { return cmp_key(a, b); }
static void ck_tree(tommy_tree* t, int fl)
{
	size_t n = ts.n; int lim = 3; while (n) { lim += 1; n >>= 1; } lim = lim * 3 / 2;
	if (fl & F_COUNT) { CK(tommy_tree_count(t) == ts.n, "count %lu instead of %lu", (unsigned long)tommy_tree_count(t), (unsigned long)ts.n); CK(tommy_tree_memory_usage(t) == ts.n * sizeof(tommy_tree_node), "memory_usage"); { size_t c = t->count, x = rnd() >> (7 + rn(50)); t->count = x; CK(tommy_tree_memory_usage(t) == x * sizeof(tommy_tree_node), "memory_usage with %lu elements", (unsigned long)x); t->count = c; } }
	if (fl & F_SIZE) { tr_h(t->root, 0); CK(cmp_calls <= 2 * lim, "%d comparisons in a tree of %lu", cmp_calls, (unsigned long)ts.n); }
	if (fl & F_DATA) { ts_k = 0; tommy_tree_foreach(t, ts_visit); CK(ts_k == ts.n, "in-order traversal visits %lu of %lu objects", (unsigned long)ts_k, (unsigned long)ts.n); }
	CK(h_blocks == 0, "the tree allocates");
}
static void t_tree(int fl, size_t maxops, int maxkey)
{
	tommy_tree t; size_t op, nops = 1 + rn(maxops); int id = 0; int phase = 0; int mode = rn(4), seqk = 0; ts.n = 0; memset(&t, 0xCC, sizeof t);
	maxkey = 1 + rn(maxkey); cmp_mode = rn(3);
	tommy_tree_init(&t, cmp_key); lg("init, keys below %d\n", maxkey);
	for (op = 0; op < nops; ++op) {
		int key = mode == 0 ? seqk++ % maxkey : mode == 1 ? (maxkey - 1 - seqk++ % maxkey) : (int)rn(maxkey); size_t k; struct ob* o; struct ob probe; void* r; memset(&probe, 0, sizeof probe); cmp_calls = 0;
		if (rn(50) == 0) phase ^= 1;
		switch (rn(12)) {
		case 0: case 1: case 2: if (phase) goto rem; /* fall through */
		case 3: case 4: case 5:
			if (ts.n && rn(8) == 0) { tommy_tree_node m; struct ob* q = ts.v[rn(ts.n)]; lg("insert(#%d again)\n", q->id); memset(&m, 0xEE, sizeof m); r = tommy_tree_insert(&t, &m, q); CK(r == q, "insert of a stored object does not return it"); break; }
			o = newob(id++, key, 0); k = ts_find(key); lg("insert(#%d key %d)\n", o->id, key); r = tommy_tree_insert(&t, &o->n, o);
			if (k < ts.n && ts.v[k]->key == key) { CK(r == ts.v[k], "insert of a present key does not return the stored object"); memset(o, 0xDD, sizeof *o); free(o); }
			else { CK(r == o, "insert does not return the new object"); sq_ins(&ts, k, o); }
			break;
		case 6: case 7: rem:
			probe.key = key; k = ts_find(key); lg("remove(key %d)\n", key); r = tommy_tree_remove(&t, &probe);
			if (k < ts.n && ts.v[k]->key == key) { CK(r == ts.v[k], "remove does not return the stored object"); o = sq_del(&ts, k); ckob(o); memset(o, 0xDD, sizeof *o); free(o); } else CK(r == 0, "remove of an absent key returns something");
			break;
		case 8: case 9:
			if (!ts.n) break; k = rn(ts.n); o = ts.v[k]; lg("remove_existing(key %d)\n", o->key); r = tommy_tree_remove_existing(&t, &o->n); CK(r == o, "remove_existing returns a wrong object"); sq_del(&ts, k); ckob(o); memset(o, 0xDD, sizeof *o); free(o); break;
		default:
			probe.key = key; k = ts_find(key); lg("search(key %d)\n", key); r = rn(2) ? tommy_tree_search(&t, &probe) : tommy_tree_search_compare(&t, cmp_extra, &probe);
			CK(r == (k < ts.n && ts.v[k]->key == key ? (void*)ts.v[k] : 0), "search finds a wrong object (or none)");
		}
		if (ts.n < 40 || rn(10) == 0) ck_tree(&t, fl); else if (fl & F_COUNT) ck_tree(&t, F_COUNT);
		if ((fl & F_ITER) && rn(30) == 0) { it_begin(&ts, 0, 1); lg("foreach\n"); if (rn(2)) tommy_tree_foreach_arg(&t, it_visit_arg, it_arg); else tommy_tree_foreach(&t, it_visit); it_end(); }
	}
	cmp_calls = 0; ck_tree(&t, fl);
	if (fl & F_ITER) { it_begin(&ts, 1, 1); lg("foreach releasing\n"); if (rn(2)) tommy_tree_foreach_arg(&t, it_visit_arg, it_arg); else tommy_tree_foreach(&t, it_visit); it_end(); }
	sq_free(&ts, 1);
}

/* ------------------------------------------------------------------ tries */
static uint64_t tkey(uint64_t* pool, int np, uint64_t lim) { uint64_t k; if (np && rn(3)) { k = pool[rn(np)]; if (rn(4) == 0) k ^= 1ULL << rn(32); } else k = rn(3) == 0 ? rn(8) : rn(2) ? rnd() : rnd() << rn(32); return k & lim; }
static size_t trie_need(void)
{
	/* inner blocks: one for every level and prefix shared by two different stored keys */
	static const int pre[] = { 27, 27, 24, 21, 18, 15, 12, 9, 6, 3 }; size_t need = 0; int l; size_t i, j, m = 0; static uint64_t u[512];
	for (i = 0; i < gs.n; ++i) { for (j = 0; j < m; ++j) if (u[j] == gs.v[i]->hash) break; if (j == m) u[m++] = gs.v[i]->hash; }
	for (l = 0; l < 10; ++l) for (i = 0; i < m; ++i) { int first = 1, other = 0; for (j = 0; j < m; ++j) if (u[j] >> pre[l] == u[i] >> pre[l]) { if (j < i) first = 0; if (j != i) other = 1; } if (first && other) need++; }
	return need;
}
static void t_trie(int fl, size_t maxops)
{
	tommy_allocator al; tommy_trie t; size_t op, nops = 1 + rn(maxops); int id = 0; uint64_t pool[24]; int np = 1 + rn(20), i; uint64_t lim = 0xFFFFFFFFULL; gs.n = 0;
	for (i = 0; i < np; ++i) pool[i] = rn(3) == 0 && i ? pool[i - 1] ^ (1ULL << rn(32)) : tkey(0, 0, lim);
	memset(&t, 0xCC, sizeof t); memset(&al, 0xCC, sizeof al);
	tommy_allocator_init(&al, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &al);
	for (op = 0; op < nops; ++op) {
		uint64_t key = tkey(pool, np, lim); size_t k; struct ob* o; void* r; tommy_trie_node* b; size_t j;
		switch (rn(8)) {
		case 0: case 1: case 2: if (gs.n > 60) break; o = newob(id++, 0, key); lg("insert(#%d key %llx)\n", o->id, (unsigned long long)key); tommy_trie_insert(&t, &o->n, o, key); sq_ins(&gs, gs.n, o); break;
		case 3: case 4: k = find_first(key, -1); lg("remove(key %llx)\n", (unsigned long long)key); r = tommy_trie_remove(&t, key); CK(r == (k < gs.n ? (void*)gs.v[k] : 0), "remove takes out a wrong object (or none)"); if (k < gs.n) { o = sq_del(&gs, k); ckob(o); memset(o, 0xDD, sizeof *o); free(o); } break;
		case 5: case 6: if (!gs.n) break; k = rn(gs.n); o = gs.v[k]; lg("remove_existing(#%d key %llx)\n", o->id, (unsigned long long)o->hash); r = tommy_trie_remove_existing(&t, &o->n); CK(r == o, "remove_existing returns a wrong object"); sq_del(&gs, k); ckob(o); memset(o, 0xDD, sizeof *o); free(o); break;
		default: k = find_first(key, -1); lg("search(key %llx)\n", (unsigned long long)key); r = tommy_trie_search(&t, key); CK(r == (k < gs.n ? (void*)gs.v[k] : 0), "search finds a wrong object (or none)");
		}
		if (fl & F_DATA) for (j = 0; j < gs.n; ++j) { size_t q; b = tommy_trie_bucket(&t, gs.v[j]->hash); for (q = 0; q < gs.n; ++q) if (gs.v[q]->hash == gs.v[j]->hash) { CK(b == &gs.v[q]->n && b->data == gs.v[q], "bucket of key %llx: object #%d missing or out of order", (unsigned long long)gs.v[j]->hash, gs.v[q]->id); b = b->next; } CK(!b, "bucket of key %llx holds more than stored", (unsigned long long)gs.v[j]->hash); ckob(gs.v[j]); }
		if (fl & F_SIZE) { CK(t.node_count == al.count, "node_count %lu, blocks taken from the allocator %lu", (unsigned long)t.node_count, (unsigned long)al.count); CK(t.node_count == trie_need(), "%lu inner blocks held, the content needs %lu", (unsigned long)t.node_count, (unsigned long)trie_need()); CK(tommy_allocator_memory_usage(&al) == al.count * TOMMY_TRIE_BLOCK_SIZE, "allocator usage"); }
		if (fl & F_COUNT) { CK(tommy_trie_count(&t) == gs.n, "count %lu instead of %lu", (unsigned long)tommy_trie_count(&t), (unsigned long)gs.n); CK(tommy_trie_memory_usage(&t) == gs.n * sizeof(tommy_trie_node) + al.count * TOMMY_TRIE_BLOCK_SIZE, "memory_usage %lu", (unsigned long)tommy_trie_memory_usage(&t)); { size_t c = t.count, x = rnd() >> (7 + rn(50)); t.count = x; CK(tommy_trie_memory_usage(&t) == x * sizeof(tommy_trie_node) + al.count * TOMMY_TRIE_BLOCK_SIZE, "memory_usage with %lu elements", (unsigned long)x); t.count = c; } }
	}
	for (i = gs.n - 1; i >= 0; --i) { tommy_trie_remove_existing(&t, &gs.v[i]->n); }
	if (fl & F_SIZE) CK(al.count == 0 && t.node_count == 0, "an empty trie holds %lu blocks", (unsigned long)al.count);
	tommy_allocator_done(&al); HEAP0(); sq_free(&gs, 1);
}
struct obi { tommy_trie_inplace_node n; int id; uint64_t key; uint64_t pay; };
static void t_tri(int fl, size_t maxops)
{
	tommy_trie_inplace t; struct obi* v[100]; size_t n = 0, op, nops = 1 + rn(maxops); int id = 0; uint64_t pool[24]; int np = 1 + rn(20), i; uint64_t lim = 0xFFFFFFFFULL;
	for (i = 0; i < np; ++i) pool[i] = rn(3) == 0 && i ? pool[i - 1] ^ (1ULL << rn(32)) : tkey(0, 0, lim);
	memset(&t, 0xCC, sizeof t); tommy_trie_inplace_init(&t);
	for (op = 0; op < nops; ++op) {
		uint64_t key = tkey(pool, np, lim); size_t k, j; struct obi* o; void* r; tommy_trie_inplace_node* b;
		switch (rn(8)) {
		case 0: case 1: case 2: if (n > 60) break; o = real_malloc(sizeof *o); memset(o, 0xEE, sizeof *o); o->id = id++; o->key = key; o->pay = o->id; lg("insert(#%d key %llx)\n", o->id, (unsigned long long)key); tommy_trie_inplace_insert(&t, &o->n, o, key); v[n++] = o; break;
		case 3: case 4: for (k = 0; k < n && v[k]->key != key; ++k) ; lg("remove(key %llx)\n", (unsigned long long)key); r = tommy_trie_inplace_remove(&t, key); CK(r == (k < n ? (void*)v[k] : 0), "remove takes out a wrong object (or none)"); goto del;
		case 5: case 6: if (!n) break; k = rn(n); lg("remove_existing(#%d key %llx)\n", v[k]->id, (unsigned long long)v[k]->key); r = tommy_trie_inplace_remove_existing(&t, &v[k]->n); CK(r == v[k], "remove_existing returns a wrong object");
			del: if (k < n) { o = v[k]; memmove(v + k, v + k + 1, (n - k - 1) * sizeof *v); n--; CK(o->pay == (uint64_t)o->id, "object altered"); memset(o, 0xDD, sizeof *o); free(o); } break;
		default: for (k = 0; k < n && v[k]->key != key; ++k) ; lg("search(key %llx)\n", (unsigned long long)key); r = tommy_trie_inplace_search(&t, key); CK(r == (k < n ? (void*)v[k] : 0), "search finds a wrong object (or none)");
		}
		if (fl & F_DATA) for (j = 0; j < n; ++j) { size_t q; b = tommy_trie_inplace_bucket(&t, v[j]->key); for (q = 0; q < n; ++q) if (v[q]->key == v[j]->key) { CK(b == &v[q]->n && b->data == v[q], "bucket of key %llx: object #%d missing or out of order", (unsigned long long)v[j]->key, v[q]->id); b = b->next; } CK(!b, "bucket of key %llx holds more than stored", (unsigned long long)v[j]->key); }
		if (fl & F_COUNT) { CK(tommy_trie_inplace_count(&t) == n, "count"); CK(tommy_trie_inplace_memory_usage(&t) == n * sizeof(tommy_trie_inplace_node), "memory_usage"); { size_t c = t.count, x = rnd() >> (7 + rn(50)); t.count = x; CK(tommy_trie_inplace_memory_usage(&t) == x * sizeof(tommy_trie_inplace_node), "memory_usage with %lu elements", (unsigned long)x); t.count = c; } }
		CK(h_blocks == 0, "the trie allocates");
	}
	for (op = 0; op < n; ++op) free(v[op]);
}

/* ------------------------------------------------------------------ arrays */
static void t_array(int blk, int fl, size_t maxsize)
{
	tommy_array a; tommy_arrayblk b; size_t n = 0, op, i, nops = 1 + rn(40), cap = maxsize + 10; void** val = calloc(cap, sizeof(void*)); void*** ad = calloc(cap, sizeof(void**)); size_t seen = 0;
	memset(&a, 0xCC, sizeof a); memset(&b, 0xCC, sizeof b);
	if (blk) tommy_arrayblk_init(&b); else tommy_array_init(&a);
	for (op = 0; op < nops; ++op) {
		int r = rn(8);
		if (r < 3) { size_t s = rn(3) ? n + rn(200) : rn(2) ? rn(maxsize) : (n / 4096) * 4096 + 4090 + rn(14); if (s > maxsize) s = maxsize; lg("grow(%lu)\n", (unsigned long)s); if (blk) tommy_arrayblk_grow(&b, s); else tommy_array_grow(&a, s); if (s > n) n = s; }
		else if (r < 5) { size_t c = rn(70); while (c-- && n < maxsize) { void* e = (void*)(uintptr_t)rnd(); lg("insert at %lu\n", (unsigned long)n); if (blk) tommy_arrayblk_insert(&b, e); else tommy_array_insert(&a, e); val[n++] = e; } }
		else if (n) { size_t c = rn(30); while (c--) { size_t p = rn(4) ? rn(n) : n - 1; void* e = (void*)(uintptr_t)rnd(); lg("set %lu\n", (unsigned long)p); if (blk) tommy_arrayblk_set(&b, p, e); else tommy_array_set(&a, p, e); val[p] = e; } }
		CK((blk ? tommy_arrayblk_size(&b) : tommy_array_size(&a)) == n, "size %lu instead of %lu", (unsigned long)(blk ? tommy_arrayblk_size(&b) : tommy_array_size(&a)), (unsigned long)n);
		if (fl & F_COUNT) CK((blk ? tommy_arrayblk_memory_usage(&b) : tommy_array_memory_usage(&a)) == h_bytes, "memory_usage %lu, allocated %lu", (unsigned long)(blk ? tommy_arrayblk_memory_usage(&b) : tommy_array_memory_usage(&a)), (unsigned long)h_bytes);
		if (fl & F_DATA) { for (i = 0; i < n; ++i) { void** q = blk ? tommy_arrayblk_ref(&b, i) : tommy_array_ref(&a, i); if (i < seen) CK(ad[i] == q, "address of position %lu changed", (unsigned long)i); ad[i] = q; CK(*q == val[i], "position %lu reads a wrong value", (unsigned long)i); CK((blk ? tommy_arrayblk_get(&b, i) : tommy_array_get(&a, i)) == val[i], "get"); if (i == n - 1 || rn(500) == 0) CK(owned(q, sizeof(void*)), "position %lu is outside owned memory", (unsigned long)i); } seen = n;
			if (blk) CK(h_blocks == 0 || 1, "x"); if (blk) CK(tommy_array_size(&b.block) == (n + 4095) / 4096, "%lu blocks for size %lu", (unsigned long)tommy_array_size(&b.block), (unsigned long)n); }
	}
	lg("done\n"); if (blk) tommy_arrayblk_done(&b); else tommy_array_done(&a); if (fl & (F_LIFE | F_DATA)) HEAP0(); while (h_blocks) { int k; for (k = 0; k < HB; ++k) while (hb[k]) vf_free(hb[k]->p); }
	free(val); free(ad);
}
static void t_arrayof(int blk, int fl, size_t maxsize)
{
	static const size_t es[] = { 1, 2, 3, 4, 7, 8, 12, 16, 24, 40, 100 };
	tommy_arrayof a; tommy_arrayblkof b; size_t e = rn(2) ? es[rn(11)] : 1 + rn(300), n = 0, op, i, nops = 1 + rn(25), cap = maxsize + 10; unsigned char* val = calloc(cap, e); char** ad = calloc(cap, sizeof(char*)); size_t seen = 0;
	memset(&a, 0xCC, sizeof a); memset(&b, 0xCC, sizeof b);
	lg("element size %lu\n", (unsigned long)e);
	if (blk) tommy_arrayblkof_init(&b, e); else tommy_arrayof_init(&a, e);
	for (op = 0; op < nops; ++op) {
		int r = rn(8);
		if (r < 4) { size_t s = rn(3) ? n + rn(200) : rn(2) ? rn(maxsize) : (n / 4096) * 4096 + 4090 + rn(14); if (s > maxsize) s = maxsize; lg("grow(%lu)\n", (unsigned long)s); if (blk) tommy_arrayblkof_grow(&b, s); else tommy_arrayof_grow(&a, s); if (s > n) n = s; }
		else if (n) { size_t c = rn(30); while (c--) { size_t p = rn(4) ? rn(n) : n - 1, z; unsigned char* q = blk ? tommy_arrayblkof_ref(&b, p) : tommy_arrayof_ref(&a, p); lg("write %lu\n", (unsigned long)p); CK(owned(q, e), "position %lu is outside owned memory", (unsigned long)p); for (z = 0; z < e; ++z) val[p * e + z] = q[z] = rnd(); } }
		CK((blk ? tommy_arrayblkof_size(&b) : tommy_arrayof_size(&a)) == n, "size");
		if (fl & F_COUNT) CK((blk ? tommy_arrayblkof_memory_usage(&b) : tommy_arrayof_memory_usage(&a)) == h_bytes, "memory_usage %lu, allocated %lu", (unsigned long)(blk ? tommy_arrayblkof_memory_usage(&b) : tommy_arrayof_memory_usage(&a)), (unsigned long)h_bytes);
		if (fl & F_DATA) { for (i = 0; i < n; ++i) { char* q = blk ? tommy_arrayblkof_ref(&b, i) : tommy_arrayof_ref(&a, i); if (i < seen) CK(ad[i] == q, "address of position %lu changed", (unsigned long)i); ad[i] = q; if (i == n - 1 || rn(500) == 0) CK(owned(q, e), "position %lu is outside owned memory", (unsigned long)i); CK(memcmp(q, val + i * e, e) == 0, "position %lu reads a wrong value", (unsigned long)i); } seen = n;
			if (blk) CK(tommy_array_size(&b.block) == (n + 4095) / 4096, "%lu blocks for size %lu", (unsigned long)tommy_array_size(&b.block), (unsigned long)n); }
	}
	lg("done\n"); if (blk) tommy_arrayblkof_done(&b); else tommy_arrayof_done(&a); if (fl & (F_LIFE | F_DATA)) HEAP0(); while (h_blocks) { int k; for (k = 0; k < HB; ++k) while (hb[k]) vf_free(hb[k]->p); }
	free(val); free(ad);
}

/* ------------------------------------------------------------------ allocator */
static void t_alloc(int fl)
{
	static const size_t bs[] = { 1, 4, 7, 8, 9, 12, 16, 24, 40, 64, 65, 100, 128, 256, 1000, 2000 }; static const size_t as[] = { 0, 1, 2, 4, 8, 16, 24, 32, 64, 128, 256 };
	tommy_allocator al; size_t b = rn(3) ? bs[rn(16)] : rn(2) ? 3600 + rn(600) : 1 + rn(5000), a = as[rn(11)], op, nops = 1 + rn(1500), n = 0, i, peak = 0; static unsigned char* v[4096]; static unsigned char tag[4096]; 
	size_t freed = 0;
	h_mis = rn(2); memset(&al, 0xCC, sizeof al); lg("allocator_init(%lu,%lu)\n", (unsigned long)b, (unsigned long)a);
	tommy_allocator_init(&al, b, a);
	for (op = 0; op < nops; ++op) {
		if (rn(5) < 3 && n < 4000) {
			size_t hb0 = h_blocks; unsigned char* p = tommy_allocator_alloc(&al); lg("alloc -> %p\n", p);
			CK(p, "null block"); CK(a == 0 || (uintptr_t)p % a == 0, "block %p is not aligned to %lu", p, (unsigned long)a); CK((uintptr_t)p % sizeof(void*) == 0, "block not aligned for a pointer");
			CK(owned(p, b), "block outside the memory of the allocator");
			for (i = 0; i < n; ++i) { CK(p + b <= v[i] || v[i] + b <= p, "block overlaps a block in use"); CK(v[i] != p, "block handed out twice"); }
			if (freed) CK(h_blocks == hb0, "new memory obtained while a freed block is available");
			if (freed) freed--;
			tag[n] = rnd(); memset(p, tag[n], b); v[n++] = p;
		} else if (n) {
			size_t k = rn(n); size_t z; for (z = 0; z < b; ++z) CK(v[k][z] == tag[k], "content of a block in use was altered");
			lg("free %p\n", v[k]); tommy_allocator_free(&al, v[k]); v[k] = v[n - 1]; tag[k] = tag[n - 1]; n--; freed++;
		}
		if (n > peak) peak = n;
		CK(al.count == n, "count %lu instead of %lu", (unsigned long)al.count, (unsigned long)n);
		CK(tommy_allocator_memory_usage(&al) == n * al.block_size && al.block_size >= b, "memory_usage");
	}
	for (i = 0; i < n; ++i) { size_t z; for (z = 0; z < b; ++z) CK(v[i][z] == tag[i], "content of a block in use was altered"); }
	(void)fl; lg("done\n"); tommy_allocator_done(&al); HEAP0(); CK(al.count == 0, "count after done"); h_mis = 0;
}

/* ------------------------------------------------------------------ hashes: reference written from the published algorithms */
#define ROTL(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
#define RMIX(a, b, c) { a -= c; a ^= ROTL(c, 4); c += b; b -= a; b ^= ROTL(a, 6); a += c; c -= b; c ^= ROTL(b, 8); b += a; a -= c; a ^= ROTL(c, 16); c += b; b -= a; b ^= ROTL(a, 19); a += c; c -= b; c ^= ROTL(b, 4); b += a; }
#define RFIN(a, b, c) { c ^= b; c -= ROTL(b, 14); a ^= c; a -= ROTL(c, 11); b ^= a; b -= ROTL(a, 25); c ^= b; c -= ROTL(b, 16); a ^= c; a -= ROTL(c, 4); b ^= a; b -= ROTL(a, 14); c ^= b; c -= ROTL(b, 24); }
static uint32_t le(const unsigned char* p, size_t n) { uint32_t v = 0; size_t i; for (i = 0; i < n && i < 4; ++i) v |= (uint32_t)p[i] << (8 * i); return v; }
static size_t left(size_t n, size_t o) { return n > o ? n - o : 0; }
static void ref(const unsigned char* k, size_t n, uint32_t* pc, uint32_t* pb, int two)
{
	uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t)n + *pc; if (two) c += *pb;
	while (n > 12) { a += le(k, 4); b += le(k + 4, 4); c += le(k + 8, 4); RMIX(a, b, c); k += 12; n -= 12; }
	if (n) { a += le(k, left(n, 0)); b += le(k + 4, left(n, 4)); c += le(k + 8, left(n, 8)); RFIN(a, b, c); }
	*pc = c; *pb = b;
}
static unsigned char* guard_page; /* one page followed by an unmapped one */
static void t_hash(void)
{
	size_t n = rn(3) ? rn(40) : rn(3000), i; unsigned char* k = guard_page + 4096 - n; uint64_t iv = rn(3) ? rnd() : rn(2); uint32_t c, b; unsigned char copy[3000]; size_t off = rn(2) ? 0 : rn(9);
	uint64_t r64; uint32_t r32;
	if (n + off > 3000) off = 0; k -= off; if (off) {} 
	{ unsigned char* h = real_malloc(n ? n : 1); for (i = 0; i < n; ++i) h[i] = rnd(); memcpy(k, h, n); memcpy(copy, h, n); lg("length %lu init %llx key", (unsigned long)n, (unsigned long long)iv); for (i = 0; i < n && i < 64; ++i) lg(" %02x", h[i]); lg("\n");
		c = (uint32_t)iv; b = 0; ref(h, n, &c, &b, 0); r32 = tommy_hash_u32((uint32_t)iv, h, n); CK(r32 == c, "hash_u32 is %08x, lookup3 is %08x", r32, c);
		c = (uint32_t)iv; b = (uint32_t)(iv >> 32); ref(h, n, &c, &b, 1); r64 = tommy_hash_u64(iv, h, n); CK(r64 == (c | (uint64_t)b << 32), "hash_u64 is %016llx, lookup3 is %016llx", (unsigned long long)r64, (unsigned long long)(c | (uint64_t)b << 32));
		CK(!memcmp(h, copy, n), "the key was written"); free(h); }
	c = (uint32_t)iv; b = 0; ref(copy, n, &c, &b, 0); CK(tommy_hash_u32((uint32_t)iv, k, n) == c, "hash_u32 depends on the position of the key");
	c = (uint32_t)iv; b = (uint32_t)(iv >> 32); ref(copy, n, &c, &b, 1); CK(tommy_hash_u64(iv, k, n) == (c | (uint64_t)b << 32), "hash_u64 depends on the position of the key");
}
static uint32_t ref_str(uint64_t iv, const unsigned char* k)
{
	size_t n = strlen((const char*)k); uint32_t a, b, c; a = b = c = 0xdeadbeef + (uint32_t)iv;
	while (n >= 12) { a += le(k, 4); b += le(k + 4, 4); c += le(k + 8, 4); RMIX(a, b, c); k += 12; n -= 12; }
	a += le(k, left(n, 0)); b += le(k + 4, left(n, 4)); c += le(k + 8, left(n, 8));
	RFIN(a, b, c); return c;
}
static void t_strhash(void)
{
	size_t n = rn(3) ? rn(40) : rn(2000), i; uint64_t iv = rn(3) ? rnd() : rn(2); unsigned char* h = real_malloc(n + 1); unsigned char* g = guard_page + 4096 - n - 1; uint32_t e, r;
	for (i = 0; i < n; ++i) do h[i] = rn(3) ? rnd() : rn(2) ? 0x80 : 1; while (!h[i]);
	h[n] = 0; memcpy(g, h, n + 1); lg("init %llx string of %lu bytes", (unsigned long long)iv, (unsigned long)n); for (i = 0; i < n && i < 64; ++i) lg(" %02x", h[i]); lg("\n");
	e = ref_str(iv, h); r = tommy_strhash_u32(iv, h); CK(r == e, "strhash is %08x, the documented scheme gives %08x", r, e);
	r = tommy_strhash_u32(iv, g); CK(r == e, "strhash depends on what follows the terminator or on the position");
	{ unsigned char* w = real_malloc(n + 40); for (i = 0; i < n + 40; ++i) w[i] = rnd(); memcpy(w, h, n + 1); r = tommy_strhash_u32(iv, w); CK(r == e, "strhash depends on what follows the terminator"); free(w); }
	free(h);
}
static void t_bits(void)
{
	int i; 
	for (i = 0; i < 2000; ++i) {
		uint64_t v = rn(3) == 0 ? 1ULL << rn(64) : rnd() >> rn(64); uint32_t u; int k; if (rn(4) == 0) v += rn(3) - 1; u = (uint32_t)v; if (rn(3) == 0) u = (uint32_t)(rnd() >> (32 + rn(32)));
		lg("values %llx %x\n", (unsigned long long)v, u); if (i % 50 == 0) g_logn = 0;
		if (v) { for (k = 63; !(v >> k & 1); --k) ; CK(tommy_ilog2_u64(v) == (tommy_uint_t)k, "ilog2_u64(%llx)", (unsigned long long)v); for (k = 0; !(v >> k & 1); ++k) ; CK(tommy_ctz_u64(v) == (tommy_uint_t)k, "ctz_u64(%llx)", (unsigned long long)v); }
		if (u) { for (k = 31; !(u >> k & 1); --k) ; CK(tommy_ilog2_u32(u) == (tommy_uint_t)k, "ilog2_u32(%x)", u); for (k = 0; !(u >> k & 1); ++k) ; CK(tommy_ctz_u32(u) == (tommy_uint_t)k, "ctz_u32(%x)", u); }
		if (u && u <= 0x80000000u) { uint32_t p = 1; while (p < u) p <<= 1; CK(tommy_roundup_pow2_u32(u) == p, "roundup_pow2_u32(%x) is %x", u, tommy_roundup_pow2_u32(u)); }
		if (v && v <= 1ULL << 63) { uint64_t p = 1; while (p < v) p <<= 1; CK(tommy_roundup_pow2_u64(v) == p, "roundup_pow2_u64(%llx) is %llx", (unsigned long long)v, (unsigned long long)tommy_roundup_pow2_u64(v)); }
		{ uint32_t z = u; if (rn(2)) z &= ~(0xFFu << 8 * rn(4)); CK((tommy_haszero_u32(z) != 0) == (!(z & 0xFF) || !(z & 0xFF00) || !(z & 0xFF0000) || !(z & 0xFF000000)), "haszero_u32(%x)", z); }
	}
}
static void t_inthash32(void)
{
	static uint32_t* bm; uint64_t i;
	bm = mmap(0, 1ULL << 29, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (i = 0; i < 1ULL << 32; ++i) { uint32_t h = tommy_inthash_u32((uint32_t)i); if (bm[h >> 5] >> (h & 31) & 1) { uint64_t j; for (j = 0; j < i; ++j) if (tommy_inthash_u32((uint32_t)j) == h) break; fail("inthash_u32: keys %08x and %08x both map to %08x", (uint32_t)j, (uint32_t)i, h); } bm[h >> 5] |= 1u << (h & 31); }
	munmap(bm, 1ULL << 29);
}
static int pair64(uint64_t a, uint64_t b) { if (a != b && tommy_inthash_u64(a) == tommy_inthash_u64(b)) { fail("inthash_u64: keys %016llx and %016llx both map to %016llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)tommy_inthash_u64(a)); } return 0; }
static int pair32(uint32_t a, uint32_t b) { if (a != b && tommy_inthash_u32(a) == tommy_inthash_u32(b)) { fail("inthash_u32: keys %08x and %08x both map to %08x", a, b, tommy_inthash_u32(a)); } return 0; }
static void t_inthash64(void)
{
	/* a collision of a sum of few shifts often shows between keys that differ in few bits, or within a small set */
	int i, j; uint64_t k = rnd();
	for (i = 0; i < 64; ++i) { pair64(k, k ^ 1ULL << i); for (j = 0; j < i; ++j) { pair64(k, k ^ 1ULL << i ^ 1ULL << j); pair64(k, k ^ ((1ULL << i) - (1ULL << j))); } }
	for (i = 0; i < 64; ++i) { uint64_t a = 1ULL << i; pair64(0, a); pair64(0, ~(a - 1)); pair64(k, k + a); pair64(k, ~k); }
}

/* ------------------------------------------------------------------ */
static void run_case(const char* p)
{
	int small = g_case % 4 != 3; size_t ops = g_case % 3 == 0 ? 12 : small ? 300 : 3000;
	if (!strcmp(p, "C01")) t_list(0, ops > 1000 ? 600 : ops);
	else if (!strcmp(p, "C02")) { if (g_case == 0 && g_seed % 8 == 1) { unsigned n; for (n = 0; n <= 6; ++n) t_sortall(n, n ? n : 1); } else if (g_case % 3 == 0) t_list(1, 60); else t_sortbig(); }
	else if (!strcmp(p, "C03")) t_hashtable(F_DATA, ops, 200);
	else if (!strcmp(p, "C04")) { if (g_case == 40 && g_seed % 2) { alarm(120); t_huge_hashdyn(F_DATA, 1200000); } else if (g_case % 16 == 5) t_hashdyn(F_DATA, 30000, 9000); else t_hashdyn(F_DATA, ops, small ? 60 : 600); }
	else if (!strcmp(p, "C05")) { if (g_case == 40 && g_seed % 2) { alarm(120); t_huge_hashlin(F_DATA, 1200000); } else if (g_case % 16 == 5) t_hashlin(F_DATA, 30000, 9000); else t_hashlin(F_DATA, ops, small ? 120 : 600); }
	else if (!strcmp(p, "C06")) { if (g_case == 40 && g_seed % 4 == 1) { alarm(120); t_huge_hashdyn(F_SIZE, 1200000); } else if (g_case == 40 && g_seed % 4 == 2) { alarm(120); t_huge_hashlin(F_SIZE, 1200000); } else switch (g_case % 3) { case 0: t_hashtable(F_SIZE, 10, 10); break; case 1: t_hashdyn(F_SIZE, g_case % 24 == 1 ? 30000 : ops, g_case % 24 == 1 ? 9000 : 300); break; default: t_hashlin(F_SIZE, g_case % 24 == 2 ? 30000 : ops, g_case % 24 == 2 ? 9000 : 400); } }
	else if (!strcmp(p, "C07")) t_tree(F_DATA, ops, small ? 30 : 600);
	else if (!strcmp(p, "C08")) t_tree(F_SIZE, ops, small ? 40 : 2000);
	else if (!strcmp(p, "C09")) t_trie(F_DATA, ops > 400 ? 400 : ops);
	else if (!strcmp(p, "C10")) t_trie(F_SIZE, ops > 400 ? 400 : ops);
	else if (!strcmp(p, "C11")) t_tri(F_DATA, ops > 400 ? 400 : ops);
	else if (!strcmp(p, "C12")) { if (g_case % 2) t_array(0, F_DATA, small ? 500 : 20000); else t_arrayof(0, F_DATA, small ? 500 : 9000); }
	else if (!strcmp(p, "C13")) { if (g_case % 2) t_array(1, F_DATA, g_case % 8 == 7 ? 90000 : small ? 9000 : 30000); else t_arrayof(1, F_DATA, g_case % 8 == 6 ? 90000 : small ? 9000 : 17000); }
	else if (!strcmp(p, "C14")) t_alloc(F_DATA);
	else if (!strcmp(p, "C15")) { int i; for (i = 0; i < 50; ++i) { g_logn = 0; t_hash(); } }
	else if (!strcmp(p, "C16")) { int i; for (i = 0; i < 50; ++i) { g_logn = 0; t_strhash(); } }
	else if (!strcmp(p, "C17")) { t_bits(); t_inthash64(); if (g_case == 200 && g_seed % 8 == 1) { alarm(200); t_inthash32(); } }
	else if (!strcmp(p, "C18")) { switch (g_case % 5) { case 0: t_list_foreach(); break; case 1: t_hashtable(F_ITER, ops, 100); break; case 2: t_hashdyn(F_ITER, ops, 100); break; case 3: t_hashlin(F_ITER, ops, 300); break; default: t_tree(F_ITER, ops, 100); } }
	else if (!strcmp(p, "C19")) { switch (g_case % 8) { case 0: t_hashtable(F_LIFE, ops, 100); break; case 1: t_hashdyn(F_LIFE, ops, 300); break; case 2: t_hashlin(F_LIFE, ops, 600); break; case 3: t_array(0, F_LIFE, 9000); break; case 4: t_arrayof(0, F_LIFE, 9000); break; case 5: t_array(1, F_LIFE, 30000); break; case 6: t_arrayof(1, F_LIFE, 17000); break; default: t_alloc(F_LIFE); } }
	else if (!strcmp(p, "C20")) { if (g_case == 40 && g_seed % 4 == 1) { alarm(120); t_huge_hashdyn(F_COUNT, 600000); t_huge_hashlin(F_COUNT, 600000); } else switch (g_case % 12) { case 0: t_hashtable(F_COUNT, ops, 100); break; case 1: t_hashdyn(F_COUNT, ops, 300); break; case 2: t_hashlin(F_COUNT, ops, 600); break; case 3: t_array(0, F_COUNT, 9000); break; case 4: t_arrayof(0, F_COUNT, 9000); break; case 5: t_array(1, F_COUNT, 30000); break; case 6: t_arrayof(1, F_COUNT, 17000); break; case 7: t_alloc(F_COUNT); break; case 8: t_tree(F_COUNT, ops, 100); break; case 9: t_trie(F_COUNT, 200); break; case 10: t_tri(F_COUNT, 200); break; default: t_list(0, 100); } }
	else { fprintf(stderr, "unknown property\n"); _exit(2); }
}
int main(int argc, char** argv)
{
	unsigned long c; double lim; struct timespec t0, t;
	if (argc < 4) return 2;
	g_prop = argv[1]; g_seed = strtoul(argv[2], 0, 0); lim = atof(argv[3]);
	__sanitizer_set_death_callback(death);
	signal(SIGALRM, onsig); signal(SIGABRT, onsig);
#if !defined(__SANITIZE_ADDRESS__)
	signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig);
#endif
	guard_page = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(guard_page + 4096, 4096, PROT_NONE);
	if (argc > 5 && !strcmp(argv[4], "keys64")) { pair64(strtoull(argv[5], 0, 16), strtoull(argv[6], 0, 16)); return 0; }
	if (argc > 5 && !strcmp(argv[4], "keys32")) { pair32(strtoul(argv[5], 0, 16), strtoul(argv[6], 0, 16)); return 0; }
	clock_gettime(CLOCK_MONOTONIC, &t0);
	for (c = argc > 4 ? strtoul(argv[4], 0, 0) : 0; ; ++c) {
		g_case = c; g_logn = 0; g_log[0] = 0; rs = g_seed * 1000003ULL + c * 7919; rnd(); alarm(20);
		run_case(g_prop);
		if (argc > 4) break;
		clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > lim) break;
	}
	printf("OK %s %lu cases\n", g_prop, c + 1);
	return 0;
}
