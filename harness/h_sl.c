/* C08: skip lists against a sorted array, under chosen levels */
#include "h.h"

static int lvl_mode, lvl_i;
long __wrap_random(void)
{
	switch (lvl_mode) {
	case 0: return R64() & 0x7fffffff;
	case 1: return 0x80;                        /* always the highest */
	case 2: return 0;                           /* always the lowest */
	case 3: return (lvl_i++ % 7) ? 0x80 : 0;
	default: return R(8) ? 0xff : 0x7f;
	}
}

typedef struct { int pad, key; } D;	/* the key is not where the datum is */
static D *pool[4096];
static int keyfun_id;
static int in[2][4096];
static int N;
static int cmp(const void *a, const void *b)
{
	int x = *(const int *)a, y = *(const int *)b;
	return x < y ? (x & 1 ? -1 : INT_MIN) : x > y ? (y & 1 ? 1 : INT_MAX) : 0;
}
static const void *key(const void *d) { return &((const D *)d)->key; }
static const char *prt(const void *d) { return "d"; }

static int last, cnt, stop, code, which, arg0, total, delmode;
static void *L[2];
static int vis(const void *d)
{
	int k = ((const D *)d)->key;
	CHECK(k > last, "iteration out of order: %d after %d", k, last);
	CHECK(k >= 0 && k < N && pool[k] == d && in[which][k] >= 1, "iteration presents a foreign datum");
	last = k;
	cnt++;
	if (delmode && R(2)) {
		sl_delete(L[which], d);
		in[which][k] = 0;
	}
	return cnt == stop ? code : 0;
}
static int visa(const void *d, void *a) { CHECK(a == &arg0, "wrong callback argument"); return vis(d); }

static int count(int w) { int i, c = 0; for (i = 0; i < N; i++) c += in[w][i]; return c; }
static void walk(int w)
{
	int r, n = count(w);
	last = -1;
	cnt = 0;
	which = w;
	stop = R(2) ? 0 : 1 + R(n + 2);
	code = (int)R64() | 1;
	if (R(3) == 0) code = R(2) ? -1 : INT_MIN;
	delmode = R(4) == 0;
	LOG("iterate list %d stop %d del %d\n", w, stop, delmode);
	r = R(2) ? sl_iterate(L[w], vis) : sl_iterate_arg(L[w], visa, &arg0);
	if (stop && stop <= n) CHECK(r == code && cnt == stop, "iteration: result %d after %d of %d", r, cnt, n);
	else CHECK(r == 0 && cnt == n, "iteration presents %d of %d (result %d)", cnt, n, r);
}

void run_case(void)
{
	int i, n, w, k;
	long live;
	lvl_mode = R(6);
	lvl_i = R(7);
	N = h_big ? 400 + R(400) : 2 + R(R(2) ? 12 : 60);
	for (i = 0; i < N; i++) { pool[i] = malloc(sizeof(D)); pool[i]->key = i; in[0][i] = in[1][i] = 0; }
	LOG("levels %d keys %d\n", lvl_mode, N);
	for (w = 0; w < 2; w++) L[w] = sl_create(cmp, key, R(2) ? prt : NULL);
	n = h_big ? 4 * N : 10 + R(300);
	for (i = 0; i < n; i++) {
		w = R(5) == 0;
		k = R(N);
		switch (R(9)) {
		case 0: case 1: case 2: case 3: case 4:
			if (in[w][k]) {
				if (R(4)) break;
				LOG("insert duplicate %d\n", k);
				{
					D dup = { -7, k };
					MUST(E_INTERNAL, sl_insert(L[w], &dup), "duplicate insertion was not refused");
				}
				break;
			}
			LOG("insert %d into %d\n", k, w);
			sl_insert(L[w], pool[k]);
			in[w][k] = 1;
			break;
		case 5: case 6:
			if (!in[w][k]) {
				if (R(6)) break;
				LOG("delete absent %d\n", k);
				MUST(E_INTERNAL, sl_delete(L[w], pool[k]), "deletion of an absent datum was not refused");
				break;
			}
			LOG("delete %d from %d\n", k, w);
			sl_delete(L[w], pool[k]);
			in[w][k] = 0;
			break;
		case 7: {
			const void *d = sl_find(L[w], &k);
			LOG("find %d\n", k);
			CHECK(d == (in[w][k] ? pool[k] : NULL), "find %d: %p", k, d);
			break;
		}
		case 8: if (R(3) == 0 && (!h_big || R(10) == 0)) walk(w); break;
		}
	}
	for (w = 0; w < 2; w++) {
		walk(w);
		for (k = -1; k <= N; k++) {
			const void *d = sl_find(L[w], &k);
			CHECK(d == (k >= 0 && k < N && in[w][k] ? pool[k] : NULL), "find %d: %p", k, d);
		}
	}
	h_nontrivial += count(0) > 0;
	CHECK(sl_iterate(NULL, vis) == 0, "iterating NULL");
	live = h_frees;
	i = count(0);
	LOG("destroy with %d entries\n", i);
	sl_destroy(L[0]);
	CHECK(h_frees - live >= i + 1, "destroy with %d entries released %ld blocks", i, h_frees - live);
	walk(1);
	sl_destroy(L[1]);
	for (i = 0; i < N; i++) free(pool[i]);
	if (R(50) == 0) _sl_shutdown();
}
