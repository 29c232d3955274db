/* Random operation sequences on bfs's containers, each step compared with a
 * naive reference model.  usage: h_cont MODE SEED STEPS */
#include "alloc.h"
#include "bfstd.h"
#include "bit.h"
#include "dstring.h"
#include "list.h"
#include "trie.h"
#include <malloc.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t S;
static uint64_t rnd(void) {
	S += 0x9E3779B97F4A7C15ULL;
	uint64_t z = S;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
static size_t below(size_t n) { return n ? rnd() % n : 0; }
static unsigned long nops, nhit, nmiss;
static long step;
#define BAD(...) do { printf("MISMATCH step %ld line %d: ", step, __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(stdout); exit(1); } while (0)

static const char *hex(const void *p, size_t n) {
	static char buf[8][400];
	static int i;
	char *b = buf[i++ % 8];
	b[0] = 0;
	for (size_t j = 0; j < n && j < 120; ++j) sprintf(b + 2 * j, "%02x", ((const unsigned char *)p)[j]);
	return b;
}

/* ------------------------------------------------------------ trie */
#define MAXE 600
struct ent { char *key; size_t len; void *val; struct trie_leaf *leaf; };
static struct ent E[MAXE];      /* in insertion order */
static size_t nE;

static long e_find(const char *key, size_t len) {
	for (size_t i = 0; i < nE; ++i)
		if (E[i].len == len && memcmp(E[i].key, key, len) == 0) return i;
	return -1;
}
static void e_del(size_t i) {
	free(E[i].key);
	memmove(&E[i], &E[i + 1], (nE - i - 1) * sizeof(E[0]));
	--nE;
}
static void e_add(const char *key, size_t len, struct trie_leaf *leaf, void *val) {
	E[nE].key = malloc(len ? len : 1);
	memcpy(E[nE].key, key, len);
	E[nE].len = len; E[nE].leaf = leaf; E[nE].val = val;
	++nE;
}
static void check_all(struct trie *t) {
	size_t i = 0;
	struct trie_leaf *prev = NULL;
	for_trie (leaf, t) {
		if (i >= nE) BAD("iteration yields more than %zu leaves", nE);
		if (leaf != E[i].leaf) BAD("iteration order: leaf %zu", i);
		if (leaf->length != E[i].len || memcmp(leaf->key, E[i].key, E[i].len)) BAD("leaf %zu has key %s, not %s", i, hex(leaf->key, leaf->length), hex(E[i].key, E[i].len));
		if (leaf->value != E[i].val) BAD("leaf %zu value", i);
		if (leaf->prev != prev) BAD("leaf %zu prev", i);
		prev = leaf;
		++i;
	}
	if (i != nE) BAD("iteration yields %zu of %zu leaves", i, nE);
	if (t->tail != prev) BAD("tail");
	for (i = 0; i < nE; ++i)
		if (trie_find_mem(t, E[i].key, E[i].len) != E[i].leaf) BAD("key %s not found", hex(E[i].key, E[i].len));
}
static char alphabet[256];
static size_t nalpha, fixed;
static size_t genkey(char *buf) {
	size_t len;
	if (fixed) {
		len = fixed;
		/* mutate an existing key often, to share long prefixes */
		if (nE && below(4)) { memcpy(buf, E[below(nE)].key, len); buf[below(len)] = alphabet[below(nalpha)]; if (!below(3)) buf[below(len)] ^= 1 << below(8); }
		else for (size_t i = 0; i < len; ++i) buf[i] = alphabet[below(nalpha)];
		return len;
	}
	static const size_t maxes[] = {1, 3, 8, 20, 200, 1000};
	switch (nE ? below(6) : 0) {
	case 1: /* a prefix of an existing key */
		{ struct ent *e = &E[below(nE)]; len = below(e->len); memcpy(buf, e->key, len); break; }
	case 2: /* an extension of an existing key */
		{ struct ent *e = &E[below(nE)]; len = e->len - 1; memcpy(buf, e->key, len);
		  size_t n = 1 + below(maxes[below(5)]); if (len + n > 2000) n = 1; while (n--) buf[len++] = alphabet[below(nalpha)]; break; }
	case 3: /* one changed byte */
		{ struct ent *e = &E[below(nE)]; len = e->len - 1; memcpy(buf, e->key, len);
		  if (len) { size_t p = below(len); buf[p] ^= 1 << below(8); if (!buf[p]) buf[p] = 1; } break; }
	case 4: /* an existing key */
		{ struct ent *e = &E[below(nE)]; len = e->len - 1; memcpy(buf, e->key, len); break; }
	default:
		len = below(maxes[below(6)] + 1);
		for (size_t i = 0; i < len; ++i) buf[i] = alphabet[below(nalpha)];
	}
	if (len > 2500) len = 2500;
	buf[len] = 0;
	return len + 1;
}
static void t_trie(long steps) {
	struct trie t;
	trie_init(&t);
	static char buf[4096];
	fixed = 0;
	if (below(3) == 0) { static const size_t f[] = {1, 2, 3, 4, 8, 16, 64}; fixed = f[below(7)]; }
	nalpha = (const size_t[]){1, 2, 3, 16, 26, 255}[below(6)];
	size_t base = (const size_t[]){1, 1, 'a', 0x0f, 0x10, 0x80, 0xf0}[below(7)];
	for (size_t i = 0; i < nalpha; ++i) { alphabet[i] = (char)(base + i * (below(2) ? 1 : 17)); if (!alphabet[i] && !fixed) alphabet[i] = 1; }
	size_t limit = (const size_t[]){4, 30, 150, MAXE}[below(4)];
	for (step = 0; step < steps; ++step) {
		size_t len = genkey(buf);
		/* an exactly sized copy, so that reading past the key is caught */
		char *k = malloc(len);
		memcpy(k, buf, len);
		long i = e_find(k, len);
		++nops;
		int op = below(100);
		if (op < 40 && (nE < limit || i >= 0)) {
			void *v = (void *)(uintptr_t)rnd();
			struct trie_leaf *leaf;
			int how = below(4);
			if (how == 0) {
				if ((fixed ? trie_set_mem(&t, k, len, v) : trie_set_str(&t, k, v)) != 0) BAD("set failed");
				leaf = trie_find_mem(&t, k, len);
				if (!leaf) BAD("set key not found: %s", hex(k, len));
				if (i >= 0) E[i].val = v;
			} else {
				leaf = fixed || below(2) ? trie_insert_mem(&t, k, len) : trie_insert_str(&t, k);
				if (!leaf) BAD("insert failed");
				if (i < 0) { if (leaf->value) BAD("new leaf has a value"); leaf->value = v; }
				else v = E[i].val;
			}
			if (leaf->length != len || memcmp(leaf->key, k, len)) BAD("insert %s gave key %s", hex(k, len), hex(leaf->key, leaf->length));
			if (i >= 0) { if (leaf != E[i].leaf) BAD("existing key %s got another leaf", hex(k, len)); }
			else { for (size_t j = 0; j < nE; ++j) if (E[j].leaf == leaf) BAD("new key %s got the leaf of %s", hex(k, len), hex(E[j].key, E[j].len)); e_add(k, len, leaf, v); }
			if (leaf->value != v) BAD("value");
		} else if (op < 60) {
			if (nE && (op < 50 || i < 0)) i = below(nE);
			if (i >= 0) {
				trie_remove(&t, E[i].leaf);
				e_del(i);
				++nhit;
			}
		} else if (op < 75) {
			struct trie_leaf *leaf = fixed || below(2) ? trie_find_mem(&t, k, len) : trie_find_str(&t, k);
			if (leaf != (i < 0 ? NULL : E[i].leaf)) BAD("find %s: %s", hex(k, len), leaf ? hex(leaf->key, leaf->length) : "nothing");
			void *v = fixed ? trie_get_mem(&t, k, len) : trie_get_str(&t, k);
			if (v != (i < 0 ? NULL : E[i].val)) BAD("get");
			if (leaf) ++nhit; else ++nmiss;
		} else if (op < 87 && !fixed) {
			long best = -1;
			for (size_t j = 0; j < nE; ++j)
				if (E[j].len <= len && memcmp(E[j].key, k, E[j].len - 1) == 0 && (best < 0 || E[j].len > E[best].len)) best = j;
			struct trie_leaf *leaf = trie_find_prefix(&t, k);
			if (leaf != (best < 0 ? NULL : E[best].leaf)) BAD("find_prefix %s: %s not %s", hex(k, len), leaf ? hex(leaf->key, leaf->length) : "nothing", best < 0 ? "nothing" : hex(E[best].key, E[best].len));
			if (leaf) ++nhit; else ++nmiss;
		} else if (op < 98 && !fixed) {
			int any = 0;
			for (size_t j = 0; j < nE; ++j)
				if (E[j].len >= len && memcmp(E[j].key, k, len - 1) == 0) any = 1;
			struct trie_leaf *leaf = trie_find_postfix(&t, k);
			if (!leaf != !any) BAD("find_postfix %s: %s", hex(k, len), leaf ? hex(leaf->key, leaf->length) : "nothing");
			if (leaf) {
				if (leaf->length < len || memcmp(leaf->key, k, len - 1)) BAD("find_postfix %s: %s", hex(k, len), hex(leaf->key, leaf->length));
				if (i >= 0 && leaf != E[i].leaf) BAD("find_postfix misses the exact key");
				++nhit;
			} else ++nmiss;
		} else if (below(12) == 0) {
			trie_clear(&t);
			while (nE) e_del(nE - 1);
		}
		if (t.head && t.head->prev) BAD("head->prev");
		if (!t.head != !nE) BAD("emptiness");
		if (step % 97 == 0) check_all(&t);
		free(k);
	}
	check_all(&t);
	if (below(2)) while (nE) { size_t i = below(nE); trie_remove(&t, E[i].leaf); e_del(i); if (nE < 40) check_all(&t); }
	trie_destroy(&t);
	while (nE) e_del(nE - 1);
}

/* ------------------------------------------------------------ dstring */
struct ms { char *p; size_t n; };
static void m_set(struct ms *m, const char *s, size_t n) { char *q = malloc(n + 1); memcpy(q, s, n); q[n] = 0; free(m->p); m->p = q; m->n = n; }
static void m_cat(struct ms *m, const char *s, size_t n) { char *q = malloc(m->n + n + 1); memcpy(q, m->p, m->n); memcpy(q + m->n, s, n); q[m->n + n] = 0; free(m->p); m->p = q; m->n += n; }
static size_t rlen(void) { static const size_t mx[] = {0, 1, 7, 8, 15, 16, 17, 31, 32, 64, 300, 5000}; size_t m = mx[below(12)]; return below(2) ? m : below(m + 1); }
static char *rstr(size_t n, int nul) { char *s = malloc(n + 1); for (size_t i = 0; i < n; ++i) { s[i] = (char)rnd(); if (!s[i] && !nul) s[i] = 1; } s[n] = 0; return s; }
#define NS 6
static void t_dstr(long steps) {
	dchar *d[NS] = {0};
	struct ms m[NS] = {{0}};
	for (int i = 0; i < NS; ++i) { d[i] = dstralloc(below(40)); m_set(&m[i], "", 0); }
	for (step = 0; step < steps; ++step) {
		int i = below(NS), j = below(NS), op = below(20);
		size_t n = rlen(), lim = rlen();
		int bin = below(3) == 0;
		char *s = rstr(n, 0), *b = rstr(n, bin);
		++nops;
		int r = 0;
		if (m[i].n > 60000) { dstrshrink(d[i], below(20)); m[i].n = dstrlen(d[i]); m[i].p[m[i].n] = 0; }
		size_t k = strnlen(s, lim);
		switch (op) {
		case 0: r = dstrcat(&d[i], s); m_cat(&m[i], s, n); break;
		case 1: r = dstrncat(&d[i], s, lim); m_cat(&m[i], s, k); break;
		case 2: r = dstrxcat(&d[i], b, n); m_cat(&m[i], b, n); break;
		case 3: if (j != i) { r = dstrdcat(&d[i], d[j]); m_cat(&m[i], m[j].p, m[j].n); } break;
		case 4: { char c = (char)rnd(); r = dstrapp(&d[i], c); m_cat(&m[i], &c, 1); break; }
		case 5: r = dstrcpy(&d[i], s); m_set(&m[i], s, n); break;
		case 6: r = dstrncpy(&d[i], s, lim); m_set(&m[i], s, k); break;
		case 7: r = dstrxcpy(&d[i], b, n); m_set(&m[i], b, n); break;
		case 8: if (j != i) { r = dstrdcpy(&d[i], d[j]); m_set(&m[i], m[j].p, m[j].n); } break;
		case 9: { size_t z = below(m[i].n + 1); dstrshrink(d[i], z); m[i].n = z; m[i].p[z] = 0; break; }
		case 10: { size_t old = m[i].n; r = dstresize(&d[i], n); if (!r && n > old) memset(d[i] + old, 'x', n - old);
			if (n <= old) { m[i].n = n; m[i].p[n] = 0; } else { while (m[i].n < n) m_cat(&m[i], "x", 1); } break; }
		case 11: r = dstreserve(&d[i], n); if (!r && n > m[i].n) { /* the reserved room is usable */ memset(d[i] + m[i].n + 1, 'q', n - m[i].n); } break;
		case 12: { dchar *x = below(2) ? dstrdup(s) : dstrxdup(s, n); dstrfree(d[i]); d[i] = x; m_set(&m[i], s, n); break; }
		case 13: { dchar *x = dstrndup(s, lim); dstrfree(d[i]); d[i] = x; m_set(&m[i], s, k); break; }
		case 14: { dchar *x = dstrddup(d[j]); dstrfree(d[i]); d[i] = x; char *cp = malloc(m[j].n + 1); memcpy(cp, m[j].p, m[j].n); size_t cn = m[j].n; m_set(&m[i], cp, cn); free(cp); break; }
		case 15: case 16: {
			/* formatted append: compare with snprintf */
			int a = (int)rnd(); unsigned long ul = rnd() >> below(64); int w = below(200);
			char *e = malloc(n + 800);
			size_t en;
			switch (below(3)) {
			case 0: en = sprintf(e, "%s|%d|%*lu", s, a, w, ul); r = dstrcatf(&d[i], "%s|%d|%*lu", s, a, w, ul); break;
			case 1: en = sprintf(e, "%.*s%%%c", (int)lim, s, 'A' + w % 26); r = dstrcatf(&d[i], "%.*s%%%c", (int)lim, s, 'A' + w % 26); break;
			default: en = sprintf(e, "%08lx:%-*d.", ul, w, a); r = dstrcatf(&d[i], "%08lx:%-*d.", ul, w, a); break;
			}
			if (op == 15) m_cat(&m[i], e, en);
			else { dstrfree(d[i]); d[i] = dstrprintf("%s", e); m_set(&m[i], e, en); }
			free(e);
			break; }
		case 17: { size_t q = below(9); if (n > 300) break; dchar *x = dstrepeat(s, q); dstrfree(d[i]); d[i] = x; m_set(&m[i], "", 0); while (q--) m_cat(&m[i], s, n); break; }
		case 18: {
			/* shell quoting is checked against the stand-alone function */
			char *e = malloc(4 * n + 8);
			size_t q = below(2) ? lim : SIZE_MAX;
			size_t sn = strnlen(s, q);
			enum wesc_flags fl = below(3) == 0 ? WESC_TTY : below(2) ? WESC_SHELL : WESC_SHELL | WESC_TTY;
			char *end = wordnesc(e, e + 4 * n + 8, s, sn, fl);
			r = q == SIZE_MAX ? dstrescat(&d[i], s, fl) : dstrnescat(&d[i], s, q, fl);
			m_cat(&m[i], e, end - e);
			free(e);
			break; }
		case 19: { dstrfree(d[i]); d[i] = NULL; r = dstreserve(&d[i], n); m_set(&m[i], "", 0); break; }
		}
		if (r) BAD("op %d failed", op);
		if (!d[i]) BAD("op %d: null", op);
		for (int q = 0; q < NS; ++q) {
			if (q != i && step % 16) continue;
			if (dstrlen(d[q]) != m[q].n) BAD("op %d: string %d has length %zu, not %zu", op, q, dstrlen(d[q]), m[q].n);
			if (memcmp(d[q], m[q].p, m[q].n)) BAD("op %d: string %d differs", op, q);
			if (d[q][m[q].n]) BAD("op %d: string %d is not terminated", op, q);
		}
		free(s); free(b);
	}
	for (int i = 0; i < NS; ++i) { dstrfree(d[i]); free(m[i].p); }
}

/* ------------------------------------------------------------ lists */
struct item { int id; struct item *next; struct { struct item *next; } q; struct { struct item *prev, *next; } l; };
struct sl { struct item *head, **tail; };
struct dl { struct item *head, *tail; };
#define NI 40
static int A[3][NI], nA[3];
static void a_ins(int w, int pos, int id) { memmove(&A[w][pos + 1], &A[w][pos], (nA[w] - pos) * sizeof(int)); A[w][pos] = id; nA[w]++; }
static int a_del(int w, int pos) { int id = A[w][pos]; memmove(&A[w][pos], &A[w][pos + 1], (nA[w] - pos - 1) * sizeof(int)); nA[w]--; return id; }

#define SLIST_TEST(NAME, FLD, ...) \
static struct item **NAME##_cursor(struct sl *l, int pos) { \
	struct item **c = &l->head; \
	while (pos--) c = &(*c)->FLD; \
	return c; \
} \
static void NAME##_check(struct sl *l, int w) { \
	int i = 0; \
	for_slist (struct item, it, l __VA_ARGS__) { \
		if (i >= nA[w] || it->id != A[w][i]) BAD("slist %d: item %d", w, i); \
		++i; \
	} \
	if (i != nA[w]) BAD("slist %d: %d of %d items", w, i, nA[w]); \
	if (SLIST_EMPTY(l) != !nA[w]) BAD("slist %d emptiness", w); \
	struct item *t = SLIST_TAIL(l __VA_ARGS__); \
	if (!t != !nA[w] || (t && t->id != A[w][nA[w] - 1])) BAD("slist %d tail", w); \
	if (l->tail != NAME##_cursor(l, nA[w])) BAD("slist %d tail cursor", w); \
	if (*l->tail) BAD("slist %d not terminated", w); \
} \
static void NAME(long steps) { \
	struct item it[NI]; \
	struct sl l[2]; \
	for (int i = 0; i < NI; ++i) { memset(&it[i], 0x5a, sizeof it[i]); it[i].id = i; SLIST_ITEM_INIT(&it[i] __VA_ARGS__); } \
	SLIST_INIT(&l[0]); SLIST_INIT(&l[1]); \
	nA[0] = nA[1] = 0; \
	int where[NI]; for (int i = 0; i < NI; ++i) where[i] = -1; \
	for (step = 0; step < steps; ++step) { \
		int id = below(NI), w = below(2), o = !w; \
		++nops; \
		for (int i = 0; i < NI; ++i) if (below(8) == 0) { \
			int a = SLIST_ATTACHED(&l[where[i] < 0 ? 0 : where[i]], &it[i] __VA_ARGS__); \
			if (!!a != (where[i] >= 0)) BAD("attached %d", i); } \
		int op = below(9); \
		switch (op) { \
		case 0: if (where[id] < 0) { SLIST_APPEND(&l[w], &it[id] __VA_ARGS__); a_ins(w, nA[w], id); where[id] = w; } break; \
		case 1: if (where[id] < 0) { SLIST_PREPEND(&l[w], &it[id] __VA_ARGS__); a_ins(w, 0, id); where[id] = w; } break; \
		case 2: case 3: if (where[id] < 0) { int p = below(nA[w] + 1); \
			struct item **c = SLIST_INSERT(&l[w], NAME##_cursor(&l[w], p), &it[id] __VA_ARGS__); \
			a_ins(w, p, id); where[id] = w; if (c != NAME##_cursor(&l[w], p + 1)) BAD("insert cursor"); } break; \
		case 4: if (nA[w]) { int p = below(nA[w]); struct item *x = SLIST_REMOVE(&l[w], NAME##_cursor(&l[w], p) __VA_ARGS__); \
			int e = a_del(w, p); if (x != &it[e]) BAD("removed %d not %d", x ? x->id : -1, e); where[e] = -1; if (x->FLD) BAD("removed item still linked"); } break; \
		case 5: { struct item *x = SLIST_POP(&l[w] __VA_ARGS__); if (!x != !nA[w]) BAD("pop"); if (x) { int e = a_del(w, 0); where[e] = -1; if (x->id != e) BAD("popped %d not %d", x->id, e); ++nhit; } break; } \
		case 6: { int p = below(nA[w] + 1); SLIST_SPLICE(&l[w], NAME##_cursor(&l[w], p), &l[o]); \
			while (nA[o]) { int e = a_del(o, nA[o] - 1); a_ins(w, p, e); where[e] = w; } break; } \
		case 7: SLIST_EXTEND(&l[w], &l[o]); while (nA[o]) { int e = a_del(o, 0); a_ins(w, nA[w], e); where[e] = w; } break; \
		case 8: if (below(10) == 0) { int k = 0; int tot = nA[w]; drain_slist (struct item, x, &l[w] __VA_ARGS__) { if (x->id != A[w][0]) BAD("drain"); where[x->id] = -1; a_del(w, 0); ++k; } if (k != tot) BAD("drained %d of %d", k, tot); } break; \
		} \
		NAME##_check(&l[0], 0); NAME##_check(&l[1], 1); \
	} \
}
SLIST_TEST(sl_plain, next)
SLIST_TEST(sl_node, q.next, , q)

static void d_check(struct dl *l, int w) {
	int i = 0; struct item *prev = NULL;
	for_list (struct item, it, l, l) {
		if (i >= nA[w] || it->id != A[w][i]) BAD("list %d: item %d", w, i);
		if (it->l.prev != prev) BAD("list %d: prev of item %d", w, i);
		prev = it; ++i;
	}
	if (i != nA[w]) BAD("list %d: %d of %d items", w, i, nA[w]);
	if (l->tail != prev) BAD("list %d: tail", w);
	if (LIST_EMPTY(l) != !nA[w]) BAD("list emptiness");
}
static void t_list(long steps) {
	sl_plain(steps);
	sl_node(steps);
	struct item it[NI]; struct dl l[2];
	int where[NI];
	for (int i = 0; i < NI; ++i) { memset(&it[i], 0x5a, sizeof it[i]); it[i].id = i; LIST_ITEM_INIT(&it[i], l); where[i] = -1; }
	LIST_INIT(&l[0]); LIST_INIT(&l[1]);
	nA[0] = nA[1] = 0;
	for (step = 0; step < steps; ++step) {
		int id = below(NI), w = below(2);
		++nops;
		for (int i = 0; i < NI; ++i) if (below(8) == 0) { int a = LIST_ATTACHED(&l[where[i] < 0 ? 0 : where[i]], &it[i], l); if (!!a != (where[i] >= 0)) BAD("attached"); }
		switch (below(5)) {
		case 0: if (where[id] < 0) { LIST_APPEND(&l[w], &it[id], l); a_ins(w, nA[w], id); where[id] = w; } break;
		case 1: if (where[id] < 0) { struct item *none = NULL; LIST_INSERT(&l[w], none, &it[id], l); a_ins(w, 0, id); where[id] = w; } break;
		case 2: if (where[id] < 0) { int p = below(nA[w] + 1); struct item *c = p ? &it[A[w][p - 1]] : NULL; LIST_INSERT(&l[w], c, &it[id], l); a_ins(w, p, id); where[id] = w; } break;
		default: if (nA[w]) { int p = below(nA[w]); int e = a_del(w, p); LIST_REMOVE(&l[w], &it[e], l); where[e] = -1; if (it[e].l.prev || it[e].l.next) BAD("removed item still linked"); ++nhit; } break;
		}
		d_check(&l[0], 0); d_check(&l[1], 1);
	}
}

/* ------------------------------------------------------------ allocators */
#define NP 1500
struct al { unsigned char *p; size_t n, count; unsigned char fill; };
static struct al P[NP];
static void fill(struct al *a, size_t from) { for (size_t i = from; i < a->n; ++i) a->p[i] = (unsigned char)(a->fill + i * 7); }
static void verify(struct al *a, size_t n) { for (size_t i = 0; i < n; ++i) if (a->p[i] != (unsigned char)(a->fill + i * 7)) BAD("block of %zu bytes corrupted at %zu", a->n, i); }
static void t_alloc(long steps) {
	/* fixed size arena */
	for (int round = 0; round < 2; ++round) {
		size_t align = (size_t)1 << below(8);
		size_t size = align * (1 + below((const size_t[]){2, 10, 100, 700}[below(4)]));
		/* chunks must be able to hold a free-list link */
		if (size > sizeof(uintptr_t) && align < sizeof(uintptr_t)) size = (size + 7) & ~(size_t)7;
		struct arena ar;
		arena_init(&ar, align, size);
		size_t n = 0, lim = (const size_t[]){3, 60, NP}[below(3)];
		for (step = 0; step < steps; ++step) {
			++nops;
			int op = below(100);
			if (op < 55 && n < lim) {
				P[n].p = arena_alloc(&ar); P[n].n = size; P[n].fill = (unsigned char)rnd();
				if (!P[n].p) BAD("arena_alloc");
				if ((uintptr_t)P[n].p & (align - 1)) BAD("misaligned chunk %p for %zu", (void *)P[n].p, align);
				for (size_t j = 0; j < n && j < 40; ++j) { size_t q = below(n); if (P[q].p < P[n].p + size && P[n].p < P[q].p + size) BAD("overlapping chunks"); }
				fill(&P[n], 0); ++n;
			} else if (op < 95 && n) {
				size_t i = below(n); verify(&P[i], size); arena_free(&ar, P[i].p); P[i] = P[--n]; ++nhit;
			} else if (op == 99 && !below(30)) {
				for (size_t i = 0; i < n; ++i) verify(&P[i], size);
				n = 0; arena_clear(&ar);
			}
		}
		for (size_t i = 0; i < n; ++i) verify(&P[i], size);
		arena_destroy(&ar);
	}
	/* flexible arena */
	{
		size_t align = (size_t)1 << below(7), offset, elt;
		elt = 1 + below(24);
		offset = 8 + below(5) * 8 + below(8);
		if (align < 8) align = 8;
		struct varena va;
		varena_init(&va, align, offset, elt);
		size_t n = 0, lim = (const size_t[]){3, 60, NP / 2}[below(3)];
		size_t maxc = (const size_t[]){1, 4, 33, 260, 2000}[below(5)];
		for (step = 0; step < steps; ++step) {
			++nops;
			int op = below(100);
			size_t c = below(maxc + 1), need = offset + c * elt;
			if (op < 45 && n < lim) {
				struct al *a = &P[n];
				a->p = varena_alloc(&va, c); a->n = need; a->count = c; a->fill = (unsigned char)rnd();
				if (!a->p) BAD("varena_alloc");
				if ((uintptr_t)a->p & (align - 1)) BAD("misaligned flexible struct");
				fill(a, 0); ++n;
			} else if (op < 65 && n) {
				struct al *a = &P[below(n)];
				size_t old = a->n; verify(a, old);
				unsigned char *q = varena_realloc(&va, a->p, a->count, c);
				if (!q) BAD("varena_realloc");
				a->p = q; a->n = need; a->count = c;
				if ((uintptr_t)a->p & (align - 1)) BAD("misaligned flexible struct");
				verify(a, old < need ? old : need);
				fill(a, 0);
			} else if (op < 72 && n) {
				struct al *a = &P[below(n)];
				size_t old = a->n, oc = a->count; verify(a, old);
				if (oc > 3000) continue;
				unsigned char *q = varena_grow(&va, a->p, &a->count);
				if (!q) BAD("varena_grow");
				if (a->count <= oc) BAD("varena_grow %zu -> %zu", oc, a->count);
				a->p = q; a->n = offset + a->count * elt;
				verify(a, old); fill(a, 0);
			} else if (op < 98 && n) {
				size_t i = below(n); verify(&P[i], P[i].n); varena_free(&va, P[i].p, P[i].count); P[i] = P[--n]; ++nhit;
			} else if (op == 99 && !below(30)) {
				for (size_t i = 0; i < n; ++i) verify(&P[i], P[i].n);
				n = 0; varena_clear(&va);
			}
			if (n) { size_t i = below(n); verify(&P[i], P[i].n); }
		}
		for (size_t i = 0; i < n; ++i) verify(&P[i], P[i].n);
		varena_destroy(&va);
	}
	/* memory that was given back is used again */
	for (int round = 0; round < 3; ++round) {
		size_t live = 1 + below(12), maxc = 1 + below(40), maxb = 0;
		struct arena ar; struct varena va;
		size_t size = 8 * (1 + below(40));
		if (round == 0) arena_init(&ar, 8, size); else varena_init(&va, 8, 16, 8);
		memset(P, 0, sizeof(P[0]) * live);
		size_t before = mallinfo2().uordblks + mallinfo2().hblkhd;
		for (step = 0; step < 60000; ++step) {
			struct al *a = &P[below(live)];
			size_t c = below(maxc + 1);
			if (round == 0) {
				if (a->p) { arena_free(&ar, a->p); a->p = NULL; } else a->p = arena_alloc(&ar);
				maxb = size;
			} else if (!a->p) {
				a->p = varena_alloc(&va, a->count = c);
			} else if (round == 2 && below(4)) {
				a->p = varena_realloc(&va, a->p, a->count, c); a->count = c;
				if (!a->p) BAD("varena_realloc");
			} else {
				varena_free(&va, a->p, a->count); a->p = NULL;
			}
			if (round) maxb = 16 + 8 * maxc;
		}
		nops += step;
		size_t now = mallinfo2().uordblks + mallinfo2().hblkhd;
		if (now > before && now - before > 256 * live * maxb + (1 << 19)) BAD("%zu bytes in use for at most %zu live blocks of %zu bytes: freed memory is not used again", now - before, live, maxb);
		if (round == 0) arena_destroy(&ar); else varena_destroy(&va);
	}
	/* dynamic arrays, realloc and saturating sizes */
	{
		uint64_t *arr = NULL; size_t cnt = 0;
		size_t top = below(3000);
		for (step = 0; (size_t)step < top; ++step) {
			++nops;
			size_t before = cnt;
			uint64_t *e = RESERVE(uint64_t, &arr, &cnt);
			if (!e || cnt != before + 1 || e != arr + before) BAD("RESERVE at %zu", before);
			*e = before * 77;
			for (int q = 0; q < 4; ++q) { size_t i = below(cnt); if (arr[i] != i * 77) BAD("dynamic array lost element %zu", i); }
		}
		free(arr);
		for (step = 0; step < steps / 8; ++step) {
			++nops;
			size_t align = (size_t)1 << below(12), n1 = align * (1 + below(20)), n2 = align * (1 + below(20));
			struct al a = {.n = n1, .fill = (unsigned char)rnd()};
			int z = below(2);
			a.p = z ? zalloc(align, n1) : alloc(align, n1);
			if (!a.p) BAD("alloc");
			if ((uintptr_t)a.p & (align - 1) & 4095) BAD("misaligned allocation");
			if (z) for (size_t i = 0; i < n1; ++i) if (a.p[i]) BAD("zalloc byte %zu is not zero", i);
			fill(&a, 0);
			a.p = xrealloc(a.p, align, n1, n2);
			if (!a.p) BAD("xrealloc");
			if ((uintptr_t)a.p & (align - 1) & 4095) BAD("misaligned reallocation");
			verify(&a, n1 < n2 ? n1 : n2);
			a.n = n2; fill(&a, 0); verify(&a, n2);
			free(a.p);
			/* arithmetic saturates instead of wrapping */
			size_t x = rnd() >> below(64), y = rnd() >> below(64);
			__uint128_t s = (__uint128_t)x + y, m = (__uint128_t)x * y;
			if (size_add(x, y) != (s > SIZE_MAX ? SIZE_MAX : (size_t)s)) BAD("size_add");
			if (x && size_mul(x, y) != (m > SIZE_MAX ? SIZE_MAX : (size_t)m)) BAD("size_mul");
			size_t es = 1 + below(64), off = below(64) * 8;
			__uint128_t fs = (__uint128_t)es * y + off + align - 1;
			size_t got = flex_size(align, off, es, y);
			size_t want = fs > SIZE_MAX ? (SIZE_MAX & ~(align - 1)) : ((size_t)fs & ~(align - 1));
			if (got != want) BAD("flex_size(%zu, %zu, %zu, %zu) = %zu, not %zu", align, off, es, y, got, want);
			errno = 0;
			if (below(4) == 0) { void *v = alloc(8, (SIZE_MAX / 2) + 1 + below(1000)); if (v) BAD("an impossible allocation succeeded"); }
		}
	}
}

int main(int argc, char **argv) {
	const char *mode = argv[1];
	S = strtoull(argv[2], NULL, 10);
	long steps = atol(argv[3]);
	if (!strcmp(mode, "trie")) t_trie(steps);
	else if (!strcmp(mode, "dstr")) t_dstr(steps);
	else if (!strcmp(mode, "list")) t_list(steps);
	else t_alloc(steps);
	printf("ok ops=%lu hits=%lu misses=%lu\n", nops, nhit, nmiss);
	return 0;
}
