/* C11 (and C02 for pools): string pools against a table of contents */
#include "h.h"

typedef struct { const char *p; char *c; } E;
typedef struct { str_Pool h; int global; E *a; int n, cap; char **seen; int ns; } PL;

static char *word(int gl)
{
	int len = R(12) == 0 ? R(300) : R(5), i;
	char *b = malloc(len + 1);
	for (i = 0; i < len; i++) b[i] = R(30) ? "ab0"[R(3)] : 1 + R(255);
	b[len] = 0;
	return b;
}
static int look(PL *m, const char *c)
{
	int i;
	for (i = 0; i < m->n; i++) if (!strcmp(m->a[i].c, c)) return i;
	return -1;
}
static void interned(PL *m, const char *p, const char *c)
{
	int i = look(m, c), j;
	CHECK(p && !strcmp(p, c), "pooled string is %s, expected %s", esc(p, -1), esc(c, -1));
	if (i >= 0) {
		CHECK(m->a[i].p == p, "equal contents, different pointers (%s)", esc(c, -1));
		h_nontrivial++;
		return;
	}
	for (j = 0; j < m->n; j++) CHECK(m->a[j].p != p, "different contents, same pointer");
	if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->a = realloc(m->a, m->cap * sizeof(E)); }
	m->a[m->n].p = p;
	m->a[m->n].c = strdup(c);
	m->n++;
}
static PL *cur;
static int *cnt, total, stopat, arg0;
static int vis(const char *s)
{
	int i;
	for (i = 0; i < cur->n && cur->a[i].p != s; i++);
	CHECK(i < cur->n, "iteration presents a string that is not in the pool: %s", esc(s, -1));
	CHECK(!cnt[i]++, "iteration presents %s twice", esc(s, -1));
	total++;
	return total == stopat ? 1 + R(3) : 0;
}
static int visa(const char *s, void *a) { CHECK(a == &arg0, "wrong callback argument"); return vis(s); }
static void iterate(PL *m)
{
	int r, how = R(3);
	if (m->global) return;
	cur = m;
	cnt = calloc(m->n + 1, sizeof(int));
	total = 0;
	stopat = R(2) ? 0 : 1 + R(m->n + 2);
	LOG("iterate %d stop %d\n", how, stopat);
	if (how == 2) {
		str_Position p;
		const char *k;
		int i;
		if (R(2)) {
			int st = 0;
			STR_ITERATE(m->h, p, k) {
				CHECK(total < m->n, "too many");
				if (vis(k)) { st = 1; break; }
			}
			CHECK(total == (st ? stopat : m->n), "STR_ITERATE presents %d of %d strings", total, m->n);
			if (st) {
				CHECK(ERR(str_pool_find(m->h, "a string that is not in the pool")) == E_INTERNAL, "insertion during a walk was not refused");
				i = str_pool_readonly(m->h, 1);
				CHECK(i == 1, "readonly flag is %d during a walk", i);
			}
			if (st || R(2)) STR_ITERATE_END(m->h);
			i = str_pool_readonly(m->h, 0);
			CHECK(i == 0, "pool still readonly after the walk");
			free(cnt);
			return;
		}
		stopat = 0;
		for (p = str_pool_init_position(m->h); p; p = str_pool_next_position(m->h, p)) {
			k = NULL;
			str_pool_get_position(p, (void *)&k);
			vis(k);
			CHECK(total <= m->n, "too many");
		}
		CHECK(total == m->n, "position walk presents %d of %d strings", total, m->n);
	} else {
		r = how ? str_pool_iterate(m->h, vis) : str_pool_iterate_arg(m->h, visa, &arg0);
		if (stopat && stopat <= m->n) CHECK(r && total == stopat, "iteration did not stop");
		else CHECK(!r && total == m->n, "iteration presents %d of %d strings", total, m->n);
	}
	free(cnt);
}
static void op(PL *m)
{
	char *c = word(m->global), *x;
	const char *p;
	int l = strlen(c), i, j, k;
	switch (R(9)) {
	case 0: case 1:
		x = dup_exact(c, l + 1);
		LOG("find %s\n", esc(c, l));
		p = m->global ? str_find(x) : str_pool_find(m->h, x);
		memset(x, 'Z', l);
		free(x);
		interned(m, p, c);
		break;
	case 2:
		x = dup_exact(c, l + 1);
		LOG("exists %s\n", esc(c, l));
		i = m->global ? str_exists(x) : str_pool_exists(m->h, x);
		free(x);
		CHECK(!!i == (look(m, c) >= 0), "existence test of %s gives %d", esc(c, l), i);
		break;
	case 3: case 4:
		LOG("grow+finish %s\n", esc(c, l));
		for (i = 0; i < l || (l && R(3) == 0); i += k) {
			k = i < l ? 1 + R(l - i) : 0;
			if (R(2) && i < l) k = 1;
			x = dup_exact(c + i, k);
			if (m->global) str_grow(x, k); else str_pool_grow(m->h, x, k);
			free(x);
		}
		p = m->global ? str_finish() : str_pool_finish(m->h);
		interned(m, p, c);
		break;
	case 5:
		if (m->global) {
			x = dup_exact(c, l + 1);
			k = R(2) ? l : R(l + 1);
			if (R(2)) free(x), x = dup_exact(c, k);	/* no terminator */
			else if (R(2)) k = l + 1 + R(20);	/* longer than the string: the string ends it */
			LOG("findn %s %d\n", esc(c, l), k);
			p = str_findn(x, k);
			free(x);
			if (k < l) c[k] = 0;
			interned(m, p, c);
		} else iterate(m);
		break;
	case 6:
		x = dup_exact(c, l + 1);
		k = R(2) ? -1 : (int)R(l + 1);
		LOG("copy %s %d\n", esc(c, l), k);
		p = k < 0 ? (m->global ? str_copy(x) : str_pool_copy(m->h, x)) : (m->global ? str_copyn(x, k) : str_pool_copyn(m->h, x, k));
		free(x);
		if (k >= 0) c[k] = 0;
		CHECK(p && !strcmp(p, c), "copy of %s is %s", esc(c, -1), esc(p, -1));
		for (j = 0; j < m->n; j++) CHECK(m->a[j].p != p, "a copy shares a pooled string");
		break;
	case 7:
		if (m->global) {
			x = dup_exact(c, l + 1);
			LOG("unique %s\n", esc(c, l));
			p = str_unique(x);
			free(x);
			CHECK(p && !strncmp(p, c, l), "unique string %s does not start with %s", esc(p, -1), esc(c, l));
			CHECK(look(m, p) < 0, "unique string %s was in the pool before", esc(p, -1));
			x = strdup(p);
			interned(m, p, x);
			free(x);
			/* make collisions with later unique strings likely */
			if (R(2)) {
				char b[400];
				snprintf(b, sizeof b, "%s%d", c, atoi(p + l) + 1 + (int)R(2));
				if (l < 300 && atoi(p + l) > 0) interned(m, str_find(b), b);
			}
		} else iterate(m);
		break;
	case 8:
		for (i = 0; i < m->n; i++) CHECK(!strcmp(m->a[i].p, m->a[i].c), "pooled string %d changed: %s, was %s", i, esc(m->a[i].p, -1), esc(m->a[i].c, -1));
		break;
	}
	free(c);
}
static void destroy(PL *m)
{
	int i;
	for (i = 0; i < m->n; i++) CHECK(!strcmp(m->a[i].p, m->a[i].c), "pooled string %d changed", i);
	if (m->global) str_destroy(); else str_pool_destroy(m->h);
	for (i = 0; i < m->n; i++) free(m->a[i].c);
	free(m->a);
	memset(m, 0, sizeof *m);
}
void run_case(void)
{
	PL m[2];
	int i, k, n = h_big ? 700 : R(60), nm = 1 + R(2);
	memset(m, 0, sizeof m);
	for (k = 0; k < nm; k++) {
		m[k].global = PROP("C11") && k == 0 && R(2);
		LOG("pool %d global %d\n", k, m[k].global);
		if (!m[k].global) CHECK((m[k].h = str_pool_create()), "NULL");
	}
	for (i = 0; i < n; i++) {
		PL *q = &m[R(nm)];
		if (PROP("C02") && R(3) == 0) iterate(q); else op(q);
		if (R(60) == 0 && q->global) { LOG("destroy global\n"); destroy(q); q->global = 1; }
	}
	for (k = 0; k < nm; k++) {
		if (n > 3) h_nontrivial++;
		for (i = 0; i < m[k].n; i++) {
			CHECK((m[k].global ? str_exists(m[k].a[i].c) : str_pool_exists(m[k].h, m[k].a[i].c)), "%s was lost", esc(m[k].a[i].c, -1));
			CHECK((m[k].global ? str_find(m[k].a[i].c) : str_pool_find(m[k].h, m[k].a[i].c)) == m[k].a[i].p, "%s has a different pointer", esc(m[k].a[i].c, -1));
		}
		LOG("destroy %d\n", k);
		destroy(&m[k]);
	}
}
