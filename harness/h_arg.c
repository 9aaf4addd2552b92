/* C12 C13: argument lists against a vector; splitting against a character-by-character reading of the grammar */
#include "h.h"

typedef struct { arg_List h; char **a; int *len; int n, cap; char *g; int glen, growing; } A;

static void add(A *m, const char *b, int len)
{
	if (m->n == m->cap) { m->cap = m->cap * 2 + 16; m->a = realloc(m->a, m->cap * sizeof(char *)); m->len = realloc(m->len, m->cap * sizeof(int)); }
	m->a[m->n] = malloc(len + 1);
	memcpy(m->a[m->n], b, len);
	m->a[m->n][len] = 0;
	m->len[m->n] = len;
	m->n++;
}
static void a_check(A *m)
{
	int c = -1, i;
	char **v = NULL;
	CHECK(arg_count(m->h) == m->n, "count %d, expected %d", arg_count(m->h), m->n);
	arg_get_vector(m->h, &c, &v);
	CHECK(c == m->n, "vector count %d, expected %d", c, m->n);
	for (i = 0; i < c; i++) {
		CHECK(v[i] && !memcmp(v[i], m->a[i], m->len[i] + 1), "item %d is %s, expected %s", i, esc(v[i], -1), esc(m->a[i], -1));
		CHECK(arg_get(m->h, i) == v[i], "arg_get(%d) differs from the vector", i);
	}
	CHECK(v[c] == NULL, "vector of %d items is not NULL-terminated", c);
	if (R(4) == 0) {
		const int bad[] = { -1, m->n, m->n + 1, INT_MIN, INT_MAX };
		i = bad[R(5)];
		LOG("get %d of %d\n", i, m->n);
		MUST(E_INTERNAL, arg_get(m->h, i), "arg_get(%d) in a list of %d not refused", i, m->n);
	}
}
static void a_op(A *m)
{
	int len = R(20) == 0 ? R(500) : R(6), i, cut;
	char *b = malloc(len + 1), *x;
	for (i = 0; i < len; i++) b[i] = 1 + R(255);
	b[len] = 0;
	switch (m->growing ? 3 + R(3) : R(4)) {
	case 0: case 1:
		x = dup_exact(b, len + 1);
		LOG("add %s\n", esc(b, len));
		CHECK(arg_add(m->h, x) == m->h, "return value");
		memset(x, 'Z', len);
		free(x);
		add(m, b, len);
		break;
	case 2:
		cut = R(len + 1);
		x = dup_exact(b, cut);
		LOG("addn %s %d\n", esc(b, cut), cut);
		CHECK(arg_addn(m->h, x, cut) == m->h, "return value");
		memset(x, 'Z', cut);
		free(x);
		add(m, b, cut);
		break;
	case 5:
		LOG("finish\n");
		CHECK(arg_finish(m->h) == m->h, "return value");
		add(m, m->g, m->glen);
		m->growing = m->glen = 0;
		break;
	default:
		if (!m->growing && R(6) == 0) {
			LOG("finish (nothing grown)\n");
			arg_finish(m->h);
			add(m, "", 0);
			break;
		}
		cut = R(len + 1);
		x = dup_exact(b, cut);
		LOG("grow %s %d\n", esc(b, cut), cut);
		arg_grow(m->h, x, cut);
		memset(x, 'Z', cut);
		free(x);
		m->g = realloc(m->g, m->glen + cut + 1);
		memcpy(m->g + m->glen, b, cut);
		m->glen += cut;
		m->growing = 1;
	}
	free(b);
}
static void lists(void)
{
	A m[2];
	int k, i, j, n = h_big ? 600 : R(40), nm = 1 + R(2);
	memset(m, 0, sizeof m);
	for (k = 0; k < nm; k++) CHECK((m[k].h = arg_create()), "NULL");
	for (i = 0; i < n; i++) {
		a_op(&m[R(nm)]);
		if (!h_big || R(20) == 0) for (k = 0; k < nm; k++) a_check(&m[k]);
	}
	for (k = 0; k < nm; k++) a_check(&m[k]);
	if (n > 6) h_nontrivial++;
	for (k = 0; k < nm; k++) {
		LOG("destroy\n");
		arg_destroy(m[k].h);
		if (k + 1 < nm) a_check(&m[k + 1]);
		for (j = 0; j < m[k].n; j++) free(m[k].a[j]);
		free(m[k].a); free(m[k].len); free(m[k].g);
	}
}

/* the grammar, read off the documentation */
static int split(const char *s, int style, char **out, int *lens)
{
	int n = 0, have = 0, l = 0, q = 0, i;
	int len = strlen(s);
	char *t = malloc(len + 1);
	for (i = 0; i <= len; i++) {
		int c = (unsigned char)s[i];
		if (q) {
			if (c == 0) break;
			if (c == q) q = 0;
			else t[l++] = c;
			continue;
		}
		if (c == 0) break;
		if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\n') {
			if (have) { out[n] = malloc(l + 1); memcpy(out[n], t, l); out[n][l] = 0; lens[n++] = l; }
			have = l = 0;
		} else if ((c == '"' || c == '\'') && !(style & ARG_NO_QUOTE)) {
			q = c;
			have = 1;
		} else if (c == '\\' && !(style & ARG_NO_ESCAPE)) {
			have = 1;
			if (s[i + 1]) t[l++] = s[++i];
		} else {
			have = 1;
			t[l++] = c;
		}
	}
	if (have) { out[n] = malloc(l + 1); memcpy(out[n], t, l); out[n][l] = 0; lens[n++] = l; }
	free(t);
	return n;
}
static void argify(void)
{
	int len = R(8) == 0 ? R(200) : R(12), i, style = "\0\1\2\3"[R(4)], n, c;
	char *b = malloc(len + 1), *x, **out = calloc(len + 2, sizeof(char *)), **v;
	int *lens = calloc(len + 2, sizeof(int)), m = R(3);
	static const int st[] = { 0, ARG_NO_ESCAPE, ARG_NO_QUOTE, ARG_NO_ESCAPE | ARG_NO_QUOTE };
	arg_List a;
	style = st[R(4)];
	for (i = 0; i < len; i++) b[i] = m == 0 ? "a b'\"\\"[R(6)] : m == 1 ? "xy \t\r\v\n\f'\"\\"[R(11)] : 1 + R(255);
	b[len] = 0;
	n = split(b, style, out, lens);
	if (n > 1) h_nontrivial++;
	x = dup_exact(b, len + 1);
	LOG("argify %s style %d\n", esc(b, len), style);
	a = arg_argify(x, style);
	CHECK(!memcmp(x, b, len + 1), "the string was modified");
	free(x);
	CHECK(a, "NULL");
	arg_get_vector(a, &c, &v);
	for (i = 0; i < c && i < n; i++)
		CHECK(v[i] && !memcmp(v[i], out[i], lens[i] + 1), "token %d is %s, expected %s", i, esc(v[i], -1), esc(out[i], -1));
	CHECK(c == n && arg_count(a) == n, "%d tokens, expected %d", c, n);
	CHECK(v[n] == NULL, "vector not NULL-terminated");
	arg_destroy(a);
	for (i = 0; i < n; i++) free(out[i]);
	free(out); free(lens); free(b);
}
void run_case(void)
{
	if (PROP("C12")) lists(); else { int k; for (k = 0; k < 8; k++) argify(); }
}
