/* C01 C02 C03 C04 C05 C17: hash tables and sets against a finite map */
#include "h.h"

#define MAXC 6000
typedef struct { int cls; int alt; char txt[14]; } keyT;

static int fam, ncls, style;
static ul h_hash(const void *k)
{
	ul c = ((const keyT *)k)->cls;
	switch (fam) {
	case 0: return c;
	case 1: return 7;
	case 2: return c % 3;
	case 3: return c * 0x9e3779b97f4a7c15UL;
	case 4: return ~0UL - c;
	case 5: return c << 33;
	case 6: return c * 15015UL;
	default: return (c / 4) * 0x100000001UL + (c & 1 ? 1UL << 63 : 0);
	}
}
static int h_cmp(const void *a, const void *b)
{
	int x = ((const keyT *)a)->cls, y = ((const keyT *)b)->cls;
	static const int r[] = { 1, -1, INT_MIN, 256, 65536, INT_MAX };
	return x == y ? 0 : r[(x * 7 + y) % 6 < 0 ? 0 : (x * 7 + y) % 6];
}
static ul h_hash2(const void *k) { return h_hash(k); }
static int h_cmp2(const void *a, const void *b) { return h_cmp(a, b); }

static keyT *keys[MAXC][3];
static const void *key(int c, int a)
{
	if (style == 1) return keys[c][a]->txt;
	if (style == 2) return keys[c][0];
	return keys[c][a];
}
static int cls_of(const void *k)
{
	const keyT *p = style == 1 ? (const keyT *)((const char *)k - offsetof(keyT, txt)) : k;
	return p->cls;
}
static void mkkeys(int n)
{
	int i, a;
	for (i = 0; i < n; i++)
		for (a = 0; a < 3; a++) {
			keyT *k = keys[i][a] = malloc(sizeof(keyT));
			k->cls = i;
			k->alt = a;
			memset(k->txt, 0x5a + a, sizeof k->txt);
			if (i == 0) k->txt[0] = 0;
			else sprintf(k->txt, i & 1 ? "%d" : "\xe9%d", i);
		}
}
static void rmkeys(int n)
{
	int i, a;
	for (i = 0; i < n; i++) for (a = 0; a < 3; a++) free(keys[i][a]);
}

typedef struct {
	int isset;
	void *h;
	const void **k;             /* stored key per class, NULL: absent */
	const void **d;
	int n, ro;
	ul retr, hits_max, miss;
} M;

static M mk(int isset)
{
	M m;
	memset(&m, 0, sizeof m);
	m.isset = isset;
	m.k = calloc(ncls, sizeof(void *));
	m.d = calloc(ncls, sizeof(void *));
	ul (*hf)(const void *) = style == 0 ? h_hash : style == 1 ? (R(2) ? NULL : hsh_string_hash) : hsh_pointer_hash;
	int (*cf)(const void *, const void *) = style == 0 ? h_cmp : style == 1 ? (R(2) ? NULL : hsh_string_compare) : hsh_pointer_compare;
	m.h = isset ? set_create(hf, cf) : hsh_create(hf, cf);
	CHECK(m.h, "create returned NULL");
	return m;
}
static void drop(M *m) { free(m->k); free(m->d); }

/* --- iteration checks */
static int *seen;
static M *cur;
static int stop_at, visits, del_mode;
static const void *arg_seen;
static int vis(const void *k, const void *d)
{
	int c = cls_of(k);
	visits++;
	CHECK(c >= 0 && c < ncls && cur->k[c] == k, "iteration presents a key that is not in the container (class %d)", c);
	CHECK(cur->isset || cur->d[c] == d, "iteration presents the wrong datum for class %d", c);
	CHECK(!seen[c], "iteration presents class %d twice", c);
	seen[c] = 1;
	if (del_mode && !cur->isset && (del_mode == 2 || R(2))) {
		CHECK(hsh_delete(cur->h, k) == 0, "delete of the visited key failed");
		cur->k[c] = NULL;
		cur->n--;
	}
	if (cur->isset) {
		CHECK(ERR(set_insert(cur->h, k)) == E_INTERNAL, "set is writable during iteration");
	}
	if (visits == stop_at) return R(2) ? 1 : -3;
	return 0;
}
static int it0(const void *k, const void *d) { return vis(k, d); }
static int it1(const void *k, const void *d, void *a) { CHECK(a == arg_seen, "wrong callback argument"); return vis(k, d); }
static int is0(const void *k) { return vis(k, NULL); }
static int is1(const void *k, void *a) { CHECK(a == arg_seen, "wrong callback argument"); return vis(k, NULL); }

/* the walking macros of maa.h */
static void macro_walk(M *m)
{
	void *p, *d = NULL;
	void *hk = NULL;
	const void *sk = NULL;
	int style = R(2), stopped = 0, f;
#define SEEN(K, D) { int kc = cls_of(K); visits++; \
		CHECK(m->k[kc] == (K) && (m->isset || style || m->d[kc] == (D)), "walking macro presents a wrong entry (class %d)", kc); \
		CHECK(!seen[kc], "walking macro presents class %d twice", kc); \
		seen[kc] = 1; \
		if (visits == stop_at) { stopped = 1; break; } }
	LOG("walking macro %d stop_at=%d\n", style, stop_at);
	if (m->isset) { SET_ITERATE(m->h, p, sk) SEEN(sk, NULL) }
	else if (style) { HSH_ITERATE_KEYS(m->h, p, hk) SEEN(hk, NULL) }
	else { HSH_ITERATE(m->h, p, hk, d) SEEN(hk, d) }
	CHECK(stopped ? visits == stop_at : visits == m->n, "walking macro presents %d of %d entries", visits, m->n);
	if (stopped) {
		f = m->isset ? set_readonly(m->h, 1) : hsh_readonly(m->h, 1);
		CHECK(f == 1, "readonly flag is %d during a walk", f);
	}
	if (stopped || R(2)) { if (m->isset) SET_ITERATE_END(m->h); else HSH_ITERATE_END(m->h); }
	if (m->n) m->ro = 0;
	f = m->isset ? set_readonly(m->h, 0) : hsh_readonly(m->h, 0);
	CHECK(f == 0 || (!m->n && m->ro), "container still readonly after the walk");
	m->ro = 0;
}

static void walk(M *m, int how)
{
	int c, r = 0, n0 = m->n, complete = 1;
	memset(seen, 0, ncls * sizeof(int));
	cur = m;
	visits = 0;
	stop_at = R(3) ? 0 : 1 + R(m->n + 2);
	del_mode = m->ro || how >= 2 ? 0 : R(3);
	arg_seen = &visits;
	if (how >= 2 && R(2)) { macro_walk(m); return; }
	LOG("iterate style=%d stop_at=%d del=%d\n", how, stop_at, del_mode);
	if (how == 0) r = m->isset ? set_iterate(m->h, is0) : hsh_iterate(m->h, it0);
	else if (how == 1) r = m->isset ? set_iterate_arg(m->h, is1, (void *)arg_seen) : hsh_iterate_arg(m->h, it1, (void *)arg_seen);
	else {
		void *p, *k, *d = NULL;
		int was = m->ro;
		for (p = m->isset ? set_init_position(m->h) : hsh_init_position(m->h); p;
		     p = m->isset ? set_next_position(m->h, p) : hsh_next_position(m->h, p)) {
			int kc;
			if (m->isset) k = set_get_position(p); else d = hsh_get_position(p, &k);
			kc = cls_of(k);
			visits++;
			CHECK(m->k[kc] == k && (m->isset || m->d[kc] == d), "position walk presents a wrong entry (class %d)", kc);
			CHECK(!seen[kc], "position walk presents class %d twice", kc);
			seen[kc] = 1;
			/* lookups while walking must not disturb the walk */
			if (R(3) == 0) {
				int q = R(ncls);
				if (m->isset) CHECK(set_member(m->h, key(q, R(3))) == !!m->k[q], "member during walk");
				else CHECK(hsh_retrieve(m->h, key(q, R(3))) == (m->k[q] ? m->d[q] : NULL), "retrieve during walk");
				m->retr++;
				if (!m->k[q]) m->miss++;
			}
			if (R(6) == 0) {
				const void *x = key(R(ncls), 0);
				int e = m->isset ? ERR(set_insert(m->h, x)) : ERR(hsh_insert(m->h, x, x));
				CHECK(e == E_INTERNAL, "insertion during a position walk was not refused");
				e = m->isset ? ERR(set_delete(m->h, x)) : ERR(hsh_delete(m->h, x));
				CHECK(e == E_INTERNAL, "deletion during a position walk was not refused");
			}
			if (visits == stop_at) {
				int f = m->isset ? set_readonly(m->h, 0) : hsh_readonly(m->h, 0);
				CHECK(f == 1, "readonly flag is %d during a position walk", f);
				complete = 0;
				break;
			}
		}
		if (n0 == 0) {
			m->ro = was;
			if (m->isset) CHECK(!set_next_position(m->h, NULL), "next of NULL"); else CHECK(!hsh_next_position(m->h, NULL), "next of NULL");
			m->ro = 0;
		} else m->ro = 0;
		if (complete) CHECK(visits == n0, "position walk presents %d of %d entries", visits, n0);
		r = 0;
		{
			int f = m->isset ? set_readonly(m->h, 0) : hsh_readonly(m->h, 0);
			CHECK(f == 0, "container still readonly after the walk");
		}
		return;
	}
	if (stop_at && stop_at <= n0) {
		CHECK(visits == stop_at, "iteration went on after a non-zero result (%d visits, stop at %d)", visits, stop_at);
		CHECK(r != 0, "stopped iteration returns 0");
	} else {
		CHECK(visits == n0, "iteration presents %d of %d entries", visits, n0);
		CHECK(r == 0, "complete iteration returns %d", r);
	}
	{
		int f = m->isset ? set_readonly(m->h, m->ro) : hsh_readonly(m->h, m->ro);
		CHECK(f == m->ro, "iteration changed the write protection (%d, was %d)", f, m->ro);
	}
	(void)c;
}

static void stats(M *m)
{
	hsh_Stats s = m->isset ? (hsh_Stats)set_get_stats(m->h) : hsh_get_stats(m->h);
	CHECK(s->entries == (ul)m->n, "statistics: %lu entries, expected %d", s->entries, m->n);
	CHECK(s->retrievals == m->retr, "statistics: %lu retrievals, expected %lu", s->retrievals, m->retr);
	CHECK(s->misses == m->miss, "statistics: %lu misses, expected %lu", s->misses, m->miss);
	CHECK(s->hits <= m->retr - m->miss, "statistics: too many hits");
	CHECK(s->buckets_used <= s->entries && (s->buckets_used > 0) == (s->entries > 0), "statistics: buckets used");
	CHECK(s->singletons <= s->buckets_used && s->maximum_length <= s->entries && (s->maximum_length > 0) == (s->entries > 0), "statistics: lengths");
	CHECK((s->maximum_length <= 1) == (s->singletons == s->buckets_used), "statistics: singletons");
	CHECK(s->maximum_length + s->buckets_used <= s->entries + 1 && s->maximum_length * s->buckets_used >= s->entries, "statistics: maximum length");
	CHECK(s->size >= s->buckets_used, "statistics: size");
	xfree(s);
	if (m->isset) CHECK(set_count(m->h) == m->n, "set_count %d, expected %d", set_count(m->h), m->n);
}

static void full(M *m)
{
	int c;
	stats(m);
	for (c = 0; c < ncls; c++) {
		if (ncls > 300 && R(8)) continue;
		m->retr++;
		if (!m->k[c]) m->miss++;
		if (m->isset) CHECK(set_member(m->h, key(c, R(3))) == !!m->k[c], "member of class %d", c);
		else CHECK(hsh_retrieve(m->h, key(c, R(3))) == (m->k[c] ? m->d[c] : NULL), "retrieve of class %d", c);
	}
	walk(m, 0 + 2 * (m->ro ? 0 : R(2)));
}

static void op(M *m)
{
	int c = R(ncls), a = R(3), r, e;
	const void *k = key(c, a);
	switch (R(m->n < ncls / 2 ? 9 : 12)) {
	case 0: case 1: case 2: case 3: case 4: {
		const void *d = R(20) ? (void *)(R64() | 1) : NULL;
		if (m->ro) {
			LOG("insert %d/%d into readonly\n", c, a);
			e = m->isset ? ERR(set_insert(m->h, k)) : ERR(hsh_insert(m->h, k, d));
			CHECK(e == E_INTERNAL, "insertion into a read-only container was not refused");
			return;
		}
		LOG("insert %d/%d\n", c, a);
		r = m->isset ? set_insert(m->h, k) : hsh_insert(m->h, k, d);
		CHECK(r == (m->k[c] ? 1 : 0), "insert of class %d returned %d", c, r);
		if (!m->k[c]) { m->k[c] = k; m->d[c] = d; m->n++; }
		break;
	}
	case 5: case 9: case 10: case 11:
		if (m->ro) {
			LOG("delete %d/%d from readonly\n", c, a);
			e = m->isset ? ERR(set_delete(m->h, k)) : ERR(hsh_delete(m->h, k));
			CHECK(e == E_INTERNAL, "deletion from a read-only container was not refused");
			return;
		}
		LOG("delete %d/%d\n", c, a);
		r = m->isset ? set_delete(m->h, k) : hsh_delete(m->h, k);
		CHECK(r == (m->k[c] ? 0 : 1), "delete of class %d returned %d", c, r);
		if (m->k[c]) { m->k[c] = NULL; m->n--; }
		break;
	case 6: case 7:
		LOG("lookup %d/%d\n", c, a);
		m->retr++;
		if (!m->k[c]) m->miss++;
		if (m->isset) CHECK(set_member(m->h, k) == !!m->k[c], "member of class %d", c);
		else CHECK(hsh_retrieve(m->h, k) == (m->k[c] ? m->d[c] : NULL), "retrieve of class %d", c);
		break;
	case 8:
		if (R(4)) { LOG("stats\n"); stats(m); return; }
		if (ncls > 300 && R(40)) return;
		switch (R(4)) {
		case 0: {
			int f = R(2), o;
			LOG("readonly %d\n", f);
			o = m->isset ? set_readonly(m->h, f) : hsh_readonly(m->h, f);
			CHECK(o == m->ro, "readonly returned %d, previous flag was %d", o, m->ro);
			m->ro = f;
			if (f) {
				e = m->isset ? ERR(set_destroy(m->h)) : ERR(hsh_destroy(m->h));
				CHECK(e == E_INTERNAL, "destroying a read-only container was not refused");
			}
			break;
		}
		default: walk(m, R(m->ro ? 2 : 3));
		}
	}
}

static void algebra(void)
{
	M a = mk(1), b, t;
	int i, same = R(5) == 0, c;
	ul (*hf)(const void *) = set_get_hash(a.h);
	int (*cf)(const void *, const void *) = set_get_compare(a.h);
	b = mk(1);
	set_destroy(b.h);
	b.h = set_create(hf, cf);
	for (i = R(ncls + 1); i > 0; i--) op(&a);
	for (i = R(ncls + 1); i > 0; i--) op(&b);
	if (R(4) == 0) for (i = 0; i < ncls; i++) {       /* b := superset or copy of a */
		if (a.k[i] && !b.k[i] && !b.ro) { const void *k = key(i, R(3)); set_insert(b.h, k); b.k[i] = k; b.n++; }
		if (!a.k[i] && b.k[i] && !b.ro && R(3)) { set_delete(b.h, key(i, R(3))); b.k[i] = NULL; b.n--; }
	}
	for (int round = 0; round < 4; round++) {
		M *x = &a, *y = same ? &a : &b;
		int which = R(7);
		int eq = 1;
		if (R(3) == 0) { set_readonly(a.h, a.ro = R(2)); set_readonly(b.h, b.ro = R(2)); }
		LOG("algebra op %d same=%d |a|=%d |b|=%d ro=%d,%d\n", which, same, x->n, y->n, x->ro, y->ro);
		memset(&t, 0, sizeof t);
		switch (which) {
		case 0: case 1: case 2:
			t = *x;
			t.k = calloc(ncls, sizeof(void *));
			t.d = calloc(ncls, sizeof(void *));
			t.retr = t.miss = 0;
			t.n = 0;
			t.ro = 0;
			t.h = which == 0 ? set_union(x->h, y->h) : which == 1 ? set_inter(x->h, y->h) : set_diff(x->h, y->h);
			CHECK(t.h && t.h != x->h && t.h != y->h, "no new set");
			for (i = 0; i < ncls; i++) {
				int in = which == 0 ? x->k[i] || y->k[i] : which == 1 ? x->k[i] && y->k[i] : x->k[i] && !y->k[i];
				if (in) { t.k[i] = x->k[i] ? x->k[i] : y->k[i]; t.n++; }
			}
			/* the element may be either operand's representative: normalise by membership */
			CHECK(set_count(t.h) == t.n, "result has %d elements, expected %d", set_count(t.h), t.n);
			for (i = 0; i < ncls; i++) CHECK(set_member(t.h, key(i, R(3))) == !!t.k[i], "result membership of class %d", i);
			{
				void *p; int cnt = 0;
				for (p = set_init_position(t.h); p; p = set_next_position(t.h, p)) {
					const void *k = set_get_position(p);
					int kc = cls_of(k);
					CHECK(t.k[kc] && (k == x->k[kc] || k == y->k[kc]), "result holds a foreign element pointer");
					cnt++;
				}
				CHECK(cnt == t.n, "result walk");
			}
			CHECK(set_readonly(t.h, 0) == 0, "result is read-only");
			CHECK(set_get_hash(t.h) == hf && set_get_compare(t.h) == cf, "result has other functions");
			set_insert(t.h, key(0, 0));
			set_destroy(t.h);
			drop(&t);
			/* statistics of the second operand count its lookups */
			if (which) { set_Stats s = set_get_stats(x->h); x->retr = s->retrievals; x->miss = s->misses; xfree(s); s = set_get_stats(y->h); y->retr = s->retrievals; y->miss = s->misses; xfree(s); }
			break;
		case 3: case 4: {
			int e, same_ro = x->ro;
			set_Set r = NULL;
			int work = 0;
			for (i = 0; i < ncls; i++) if (y->k[i]) work = 1;
			if (which == 3 && x == y) work = 0;
			e = ERR(r = which == 3 ? set_add(x->h, y->h) : set_del(x->h, y->h));
			if (same_ro && work) { CHECK(e == E_INTERNAL, "in-place operation on a read-only set not refused"); break; }
			CHECK(e == E_NONE, "unexpected error");
			CHECK(r == x->h, "in-place operation returns another set");
			if (x == y && which == 4) { for (i = 0; i < ncls; i++) x->k[i] = NULL; x->n = 0; }
			else if (x != y) for (i = 0; i < ncls; i++) {
				if (which == 3 && !x->k[i] && y->k[i]) { x->k[i] = y->k[i]; x->n++; }
				if (which == 4 && x->k[i] && y->k[i]) { x->k[i] = NULL; x->n--; }
			}
			break;
		}
		case 5: {
			set_Stats s;
			for (i = 0; i < ncls; i++) if (!x->k[i] != !y->k[i]) eq = 0;
			CHECK(!!set_equal(x->h, y->h) == eq, "set_equal, expected %d", eq);
			s = set_get_stats(y->h); y->retr = s->retrievals; y->miss = s->misses; xfree(s);
			break;
		}
		case 6: {
			M z = mk(1);
			set_Set o = set_create(R(2) ? h_hash2 : hf, h_cmp2);
			set_Set p = set_create(h_hash2, cf);
			int k = R(6);
			set_Set q = R(2) ? o : p;
			set_insert(q, keys[0][0]);
			void *first = R(2) ? x->h : q, *second = first == q ? x->h : q;
			LOG("different functions, operation %d\n", k);
			int e = k == 0 ? ERR(set_add(first, second)) : k == 1 ? ERR(set_del(first, second)) : k == 2 ? ERR(set_union(first, second)) :
				k == 3 ? ERR(set_inter(first, second)) : k == 4 ? ERR(set_diff(first, second)) : ERR(set_equal(first, second));
			CHECK(e == E_FATAL, "operands with different functions are not refused");
			CHECK(set_count(q) == 1, "refused operation changed an operand");
			set_destroy(o);
			set_destroy(p);
			set_destroy(z.h);
			drop(&z);
			break;
		}
		}
		/* operands */
		for (M *m = &a;; m = &b) {
			CHECK(set_readonly(m->h, m->ro) == m->ro, "operation changed an operand's write protection");
			stats(m);
			memset(seen, 0, ncls * sizeof(int));
			walk(m, 0);
			if (m == &b) break;
		}
	}
	for (c = 0; c < 5; c++) op(&a), op(&b);
	full(&a);
	full(&b);
	h_nontrivial += a.n + b.n > 0;
	set_readonly(a.h, 0);
	set_readonly(b.h, 0);
	set_destroy(a.h);
	set_destroy(b.h);
	drop(&a);
	drop(&b);
}

/* C17 */
static void keysfun(void)
{
	int n = R(5) ? R(12) : R(300), i;
	char *s, *t, *u;
	char b1[400], b2[400];
	for (i = 0; i < n; i++) b1[i] = R(4) ? 1 + R(255) : "\xff\x80\x7f\x01"[R(4)];
	b1[n] = 0;
	s = dup_exact(b1, n + 1);
	memcpy(b2, b1, n + 1);
	t = dup_exact(b2, n + 1);
	LOG("string %s\n", esc(b1, n));
	{
		/* same bytes, another alignment, other bytes behind the terminator */
		int off = 1 + R(7);
		u = malloc(n + 1 + off + 8);
		memset(u, R(256), n + 9 + off);
		memcpy(u + off, b1, n + 1);
		ul h1 = hsh_string_hash(s), h2 = hsh_string_hash(t), h3 = hsh_string_hash(u + off);
		CHECK(h1 == h2 && h1 == h3, "equal strings hash differently");
		CHECK(hsh_string_hash(s) == h1, "hash of a string changes");
		CHECK(!hsh_string_compare(s, t) && !hsh_string_compare(s, u + off), "equal strings compare unequal");
		free(u);
	}
	if (n) {
		int p = R(n);
		char o = t[p];
		t[p] = R(3) ? o ^ (1 << R(8)) : 0;
		if (t[p] != o) {
			int c1 = hsh_string_compare(s, t), c2 = hsh_string_compare(t, s);
			CHECK(c1 && c2, "different strings compare equal");
			CHECK((c1 < 0) == (c2 > 0) && (c1 < 0) == (strcmp(s, t) < 0), "string comparison is not an order");
		}
	}
	CHECK(!memcmp(s, b1, n + 1), "hashing or comparing modified the key");
	CHECK(ERR(hsh_string_hash(NULL)) == E_INTERNAL, "NULL string key not refused");
	CHECK(ERR(hsh_string_compare(NULL, s)) == E_INTERNAL && ERR(hsh_string_compare(s, NULL)) == E_INTERNAL && ERR(hsh_string_compare(NULL, NULL)) == E_INTERNAL, "NULL string key not refused");
	free(s);
	free(t);
	for (i = 0; i < 30; i++) {
		ul x = R(3) ? R64() : (ul)1 << R(64), y = R(3) == 0 ? x : R(2) ? x ^ ((ul)1 << R(64)) : R64();
		int c = hsh_pointer_compare((void *)x, (void *)y);
		LOG("pointers %lx %lx\n", x, y);
		CHECK((c == 0) == (x == y), "pointer comparison %d", c);
		if ((x >> 63) == (y >> 63)) CHECK((c < 0) == (x < y), "pointer comparison does not order by address");
		CHECK(hsh_pointer_hash((void *)x) == hsh_pointer_hash((void *)x), "pointer hash is not a function");
		if (x == y) CHECK(hsh_pointer_hash((void *)x) == hsh_pointer_hash((void *)y), "pointer hash is not a function");
	}
	h_nontrivial++;
}

void run_case(void)
{
	int i, n;
	M m, o;
	if (PROP("C17")) { keysfun(); return; }
	style = R(3) ? 0 : R(3);
	fam = R(8);
	ncls = h_big ? 400 + R(R(4) ? 1500 : MAXC - 500) : R(4) ? 2 + R(30) : 2 + R(160);
	if (h_big && (fam == 1 || fam == 2) && style == 0) ncls = 300;
	LOG("style %d hash family %d classes %d\n", style, fam, ncls);
	mkkeys(ncls);
	seen = calloc(ncls, sizeof(int));
	if (PROP("C05")) { if (h_big && ncls > 900) { for (i = 900; i < ncls; i++) for (n = 0; n < 3; n++) free(keys[i][n]); ncls = 900; } algebra(); rmkeys(ncls); free(seen); return; }
	{
		int isset = PROP("C04") ? 1 : PROP("C01") ? 0 : (int)R(2);
		long live0 = h_live;
		m = mk(isset);
		o = mk(isset);
		n = h_big ? ncls * 4 : R(4) ? 10 + R(80) : R(600);
		for (i = 0; i < n; i++) {
			op(R(8) ? &m : &o);
			if (PROP("C02") && R(12) == 0 && !h_big) walk(&m, R(m.ro ? 2 : 3));
			if (PROP("C03") && R(12) == 0) {
				int f = R(2), q = isset ? set_readonly(m.h, f) : hsh_readonly(m.h, f);
				CHECK(q == m.ro, "readonly returned %d, previous flag was %d", q, m.ro);
				m.ro = f;
			}
			if (PROP("C03") && !m.ro && !m.n) {	/* a walk over nothing */
				LOG("positions of an empty container\n");
				CHECK(!(isset ? (void *)set_init_position(m.h) : (void *)hsh_init_position(m.h)), "a position in an empty container");
				CHECK(!(isset ? set_readonly(m.h, 0) : hsh_readonly(m.h, 0)), "the walk is over but the container stays read-only");
			}
			if (PROP("C03") && m.ro && m.n && R(6) == 0) {
				/* positions stay valid and lookups do not reorder */
				void *p[64], *k1[64];
				int c = 0, j;
				void *x;
				for (x = isset ? set_init_position(m.h) : hsh_init_position(m.h); x && c < 64; x = isset ? set_next_position(m.h, x) : hsh_next_position(m.h, x)) {
					p[c] = x;
					if (isset) k1[c] = set_get_position(x); else hsh_get_position(x, &k1[c]);
					c++;
				}
				m.ro = x ? 1 : 0;
				isset ? set_readonly(m.h, 1) : hsh_readonly(m.h, 1);
				for (j = 0; j < 20; j++) {
					int q = R(ncls);
					m.retr++;
					if (!m.k[q]) m.miss++;
					isset ? (void)set_member(m.h, key(q, 0)) : (void)hsh_retrieve(m.h, key(q, 0));
				}
				x = isset ? set_init_position(m.h) : hsh_init_position(m.h);
				for (j = 0; j < c; j++) {
					void *k;
					CHECK(x == p[j], "lookups in a read-only container reordered its entries");
					if (isset) k = set_get_position(x); else hsh_get_position(x, &k);
					CHECK(k == k1[j], "position marker changed its entry");
					x = isset ? set_next_position(m.h, x) : hsh_next_position(m.h, x);
				}
				isset ? set_readonly(m.h, 0) : hsh_readonly(m.h, 0);
				m.ro = 0;
			}
		}
		full(&m);
		full(&o);
		if (isset) { set_readonly(m.h, 0); set_readonly(o.h, 0); set_destroy(m.h); set_destroy(o.h); }
		else { hsh_readonly(m.h, 0); hsh_readonly(o.h, 0); hsh_destroy(m.h); hsh_destroy(o.h); }
		h_nontrivial += m.n > 0;
		drop(&m);
		drop(&o);
		(void)live0;
	}
	rmkeys(ncls);
	free(seen);
}
