/* C09 C10: string memory and object memory against a table of everything handed out */
#include "h.h"

/* ------------------------------------------------------------------ strings */
typedef struct { const char *p; char *copy; int len; } S;
typedef struct { mem_String h; S *a; int n, cap; long count, bytes; char *g; int glen, growing, odd; } SM;

static char *rnd_bytes(int len)
{
	char *b = malloc(len + 1);
	int i, m = R(3);
	for (i = 0; i < len; i++) b[i] = m == 0 ? 'a' + R(3) : m == 1 ? R(256) : R(2);
	b[len] = 0;
	return b;
}
static void keep(SM *m, const char *p, const char *src, int len)
{
	CHECK(p, "NULL returned");
	if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->a = realloc(m->a, m->cap * sizeof(S)); }
	m->a[m->n].p = p;
	m->a[m->n].copy = malloc(len + 1);
	memcpy(m->a[m->n].copy, src, len);
	m->a[m->n].copy[len] = 0;
	m->a[m->n].len = len;
	m->n++;
}
static void sm_check(SM *m, int all)
{
	int i;
	mem_StringStats s;
	for (i = all || m->n < 40 ? 0 : m->n - 40; i < m->n; i++)
		CHECK(!memcmp(m->a[i].p, m->a[i].copy, m->a[i].len + 1), "string %d of %d changed: %s, stored %s", i, m->n,
			  esc(m->a[i].p, m->a[i].len), esc(m->a[i].copy, m->a[i].len));
	for (i = 1; i < m->n && all; i++) {
		int j = R(i);
		CHECK(m->a[i].p + m->a[i].len < m->a[j].p || m->a[j].p + m->a[j].len < m->a[i].p, "strings %d and %d overlap", j, i);
	}
	s = mem_get_string_stats(m->h);
	CHECK(s->count == m->count, "statistics: count %d, expected %ld", s->count, m->count);
	CHECK(m->odd || s->bytes == m->bytes, "statistics: bytes %d, expected %ld", s->bytes, m->bytes);
	xfree(s);
}
static void sm_op(SM *m)
{
	int len = R(20) == 0 ? R(3000) : R(3) ? R(12) : 0, cut;
	char *b = rnd_bytes(len), *x;
	const char *p;
	int op = m->growing ? 3 + R(3) : R(4);
	if (m->growing && R(12) == 0) {	/* the growing string is given up */
		m->growing = m->glen = 0;
		op = R(3);
		m->odd = 1;
	}
	switch (op) {
	case 0:
		len = strlen(b);
		x = dup_exact(b, len + 1);
		LOG("strcpy %s\n", esc(b, len));
		p = mem_strcpy(m->h, x);
		memset(x, 'Z', len + 1);
		free(x);
		keep(m, p, b, len);
		m->count++;
		m->bytes += len + 1;
		break;
	case 1: case 2:
		cut = R(2) ? len : R(len + 1);
		x = dup_exact(b, cut);
		LOG("strncpy %s %d\n", esc(b, cut), cut);
		p = mem_strncpy(m->h, x, cut);
		memset(x, 'Z', cut);
		free(x);
		keep(m, p, b, cut);
		m->count++;
		m->bytes += cut + 1;
		break;
	case 5:
		LOG("finish\n");
		p = mem_finish(m->h);
		keep(m, p, m->g, m->glen);
		m->count++;
		m->bytes++;
		m->growing = m->glen = 0;
		break;
	default:
		if (!m->growing && R(6) == 0) {
			LOG("finish (nothing grown)\n");
			p = mem_finish(m->h);
			keep(m, p, "", 0);
			m->count++;
			m->bytes++;
			break;
		}
		cut = R(2) ? len : R(len + 1);
		x = dup_exact(b, cut);
		LOG("grow %s %d\n", esc(b, cut), cut);
		mem_grow(m->h, x, cut);
		memset(x, 'Z', cut);
		free(x);
		m->g = realloc(m->g, m->glen + cut + 1);
		memcpy(m->g + m->glen, b, cut);
		m->glen += cut;
		m->bytes += cut;
		m->growing = 1;
		if (m->glen > 60) h_nontrivial++;
	}
	free(b);
}
static void strings(void)
{
	int k, i, n = h_big ? 2500 : R(60), nm = 1 + R(2);
	SM m[2];
	memset(m, 0, sizeof m);
	for (k = 0; k < nm; k++) CHECK((m[k].h = mem_create_strings()), "NULL");
	for (i = 0; i < n; i++) {
		SM *q = &m[R(nm)];
		sm_op(q);
		if (!h_big || R(50) == 0) for (k = 0; k < nm; k++) sm_check(&m[k], 0);
	}
	for (k = 0; k < nm; k++) sm_check(&m[k], 1);
	if (n > 5) h_nontrivial++;
	for (k = 0; k < nm; k++) {
		LOG("destroy\n");
		mem_destroy_strings(m[k].h);
		if (k + 1 < nm) sm_check(&m[k + 1], 1);
		for (i = 0; i < m[k].n; i++) free(m[k].a[i].copy);
		free(m[k].a);
		free(m[k].g);
	}
}
static void strings_leak(void)
{
	long live = h_live;
	mem_String s = mem_create_strings();
	int i, n = R(30);
	char buf[64];
	memset(buf, 'q', sizeof buf);
	buf[63] = 0;
	for (i = 0; i < n; i++) {
		switch (R(4)) {
		case 0: LOG("strcpy\n"); mem_strcpy(s, buf + R(63)); break;
		case 1: LOG("strncpy\n"); mem_strncpy(s, buf, R(63)); break;
		case 2: LOG("grow\n"); mem_grow(s, buf, 1 + R(60)); break;
		case 3: LOG("finish\n"); mem_finish(s); break;
		}
	}
	mem_destroy_strings(s);
	CHECK(h_live == live, "%ld blocks not released by destroy", h_live - live);
}

/* ------------------------------------------------------------------ objects */
typedef struct { unsigned char *p; int live; unsigned char fill; } O;
typedef struct { mem_Object h; O *a; int n, cap, size; long total, used, reused, freed; } OM;

static void om_check(OM *m)
{
	int i, j;
	mem_ObjectStats s;
	for (i = 0; i < m->n; i++)
		if (m->a[i].live)
			for (j = 0; j < m->size; j++)
				CHECK(m->a[i].p[j] == m->a[i].fill, "object %d was modified by somebody else", i);
	s = mem_get_object_stats(m->h);
	CHECK(s->total == m->total && s->used == m->used && s->reused == m->reused && s->size == m->size,
		  "statistics: total %d used %d reused %d size %d, expected %ld %ld %ld %d", s->total, s->used, s->reused, s->size,
		  m->total, m->used, m->reused, m->size);
	xfree(s);
}
static void om_op(OM *m)
{
	int i, empty, k;
	unsigned char *p;
	if (R(5) < 3 || !m->used) {
		empty = R(2);
		LOG("get%s\n", empty ? " empty" : "");
		p = empty ? mem_get_empty_object(m->h) : mem_get_object(m->h);
		CHECK(p, "NULL returned");
		if (empty) for (i = 0; i < m->size; i++) CHECK(!p[i], "byte %d of an empty object is %d", i, p[i]);
		for (k = 0; k < m->n && m->a[k].p != p; k++);
		if (k < m->n) {
			CHECK(!m->a[k].live, "an object in use was handed out again");
			m->reused++;
			m->freed--;
			h_nontrivial++;
		} else {
			for (i = 0; i < m->n; i++)
				CHECK(p + m->size <= m->a[i].p || m->a[i].p + m->size <= p, "objects overlap");
			if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->a = realloc(m->a, m->cap * sizeof(O)); }
			m->n++;
			m->a[k].p = p;
			m->total++;
		}
		m->used++;
		m->a[k].live = 1;
		m->a[k].fill = 1 + R(255);
		memset(p, m->a[k].fill, m->size);
	} else {
		for (k = R(m->n); !m->a[k].live; k = (k + 1) % m->n);
		LOG("free %d\n", k);
		mem_free_object(m->h, m->a[k].p);
		m->a[k].live = 0;
		m->used--;
		m->freed++;
	}
}
static void objects(void)
{
	int k, i, n = h_big ? 1200 : R(60), nm = 1 + R(2), sz;
	OM m[2];
	memset(m, 0, sizeof m);
	for (k = 0; k < nm; k++) {
		sz = m[k].size = R(3) ? 1 + R(40) : 1 + R(3000);
		LOG("create %d\n", sz);
		CHECK((m[k].h = mem_create_objects(sz)), "NULL");
	}
	for (i = 0; i < n; i++) {
		om_op(&m[R(nm)]);
		if (!h_big || R(50) == 0) for (k = 0; k < nm; k++) om_check(&m[k]);
	}
	for (k = 0; k < nm; k++) om_check(&m[k]);
	for (k = 0; k < nm; k++) {
		LOG("destroy\n");
		mem_destroy_objects(m[k].h);
		if (k + 1 < nm) om_check(&m[k + 1]);
		free(m[k].a);
	}
}
static void objects_leak(void)
{
	long live = h_live;
	int i, n = R(40), k = 0;
	void *o[40];
	mem_Object m = mem_create_objects(1 + R(50));
	for (i = 0; i < n; i++) {
		if (k && R(3) == 0) { LOG("free\n"); mem_free_object(m, o[--k]); }
		else { LOG("get\n"); o[k++] = R(2) ? mem_get_object(m) : mem_get_empty_object(m); }
	}
	LOG("destroy\n");
	mem_destroy_objects(m);
	CHECK(h_live == live, "%ld blocks not released by destroy", h_live - live);
}

void run_case(void)
{
	if (PROP("C09")) { if (R(4)) strings(); else strings_leak(); }
	else { if (R(4)) objects(); else objects_leak(); }
}
