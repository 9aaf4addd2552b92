/* C30: what the listings and the statistics say, against what was stored */
#include "h.h"

void __real_free(void *);
static char *text;
static size_t len;
static FILE *mine, *out0;
static int null_stream;

/* the stream handed over: one of our own, or NULL with standard output diverted */
static FILE *begin(int may_null)
{
	mine = open_memstream(&text, &len);
	out0 = stdout;
	null_stream = may_null && R(3) == 0;
	if (null_stream) { stdout = mine; return NULL; }
	return mine;
}
static const char *end(void)
{
	static char *copy;
	fflush(mine);
	if (null_stream) stdout = out0;
	fclose(mine);
	if (copy) __real_free(copy);
	copy = dup_exact(text, len + 1);
	__real_free(text);
	CHECK(strlen(copy) == len, "a NUL was written");
	return copy;
}
/* every expected line once, in any order, and no other text */
static void lines(const char *got, char want[][80], int n, const char *what)
{
	int seen[200] = { 0 }, i, k = 0;
	const char *p = got;
	while (*p) {
		const char *e = strchr(p, '\n');
		CHECK(e, "%s: unfinished line %s", what, esc(p, -1));
		for (i = 0; i < n; i++) if (!seen[i] && strlen(want[i]) == (size_t)(e - p) && !memcmp(want[i], p, e - p)) break;
		CHECK(i < n, "%s: line %s is not expected, or twice", what, esc(p, e - p));
		seen[i] = 1;
		k++;
		p = e + 1;
	}
	for (i = 0; i < n; i++) CHECK(seen[i], "%s: %s is not listed (%d of %d are)", what, esc(want[i], -1), k, n);
}
static char name[2][120][24];
static char buf[1000];

static void flags(int k)
{
	static char want[200][80];
	static int g[120], b[120];
	int n = R(4) ? R(h_big ? 100 : 12) : 0, i, j, m = 0;
	ul f;
	for (i = 0; i < n; i++) {
		g[m] = R(4);
		b[m] = R(30);
		for (j = 0; j < m; j++) if (g[j] == g[m] && b[j] == b[m]) break;
		if (j < m) continue;
		f = (ul)g[m] << 30 | 1UL << b[m];
		snprintf(name[k][m], 24, R(8) ? "%sname%d" : "%s%d", R(2) ? "" : R(2) ? "." : "a b%", m);
		LOG("%s register %lx %s\n", k ? "flg" : "dbg", f, name[k][m]);
		if (k) flg_register(f, name[k][m]);
		else if (g[m] == 3) _dbg_register(f, name[k][m]);
		else dbg_register(f, name[k][m]);
		snprintf(want[m], 80, "  %s%s", name[k][m], !k && g[m] == 3 ? " (builtin)" : "");
		m++;
	}
	for (i = 0; i < 2; i++) {
		FILE *s = begin(0);
		LOG("%s\n", k ? "flg_list" : "dbg_list");
		if (k) flg_list(s); else dbg_list(s);
		lines(end(), want, m, k ? "flg_list" : "dbg_list");
	}
	if (k) for (i = 0; i < 6; i++) {
		const char *s;
		j = R(m + 2);
		f = j < m ? (ul)g[j] << 30 | 1UL << b[j] : (ul)R(4) << 30 | 1UL << R(30);
		if (R(8) == 0) f |= 1UL << R(30);
		LOG("flg_name %lx\n", f);
		s = flg_name(f);
		for (j = 0; j < m; j++) if (f == ((ul)g[j] << 30 | 1UL << b[j])) break;
		CHECK(!strcmp(s, j < m ? name[k][j] : "unknown flag"), "flg_name %lx is %s, expected %s", f, esc(s, -1), j < m ? name[k][j] : "unknown flag");
	}
	/* the table can be written again */
	for (g[m] = 0, b[m] = 0; m < 110; ) {
		for (j = 0; j < m; j++) if (g[j] == g[m] && b[j] == b[m]) break;
		if (j == m) {
			f = (ul)g[m] << 30 | 1UL << b[m];
			strcpy(name[k][m], "late");
			LOG("register late\n");
			MUST(E_NONE, k ? flg_register(f, name[k][m]) : dbg_register(f, name[k][m]), "no registration after a listing");
			break;
		}
		if (++b[m] == 30) b[m] = 0, g[m]++;
	}
	if (m) h_nontrivial++;
	if (k) flg_destroy(); else dbg_destroy();
}

static int sim;
int __real_getrusage(int, struct rusage *);
int __wrap_getrusage(int who, struct rusage *r)
{
	if (!sim) return __real_getrusage(who, r);
	memset(r, 0, sizeof *r);
	r->ru_utime.tv_sec = sim += R(9);
	r->ru_stime.tv_sec = sim / 2 + R(3);
	r->ru_utime.tv_usec = R(1000000);
	return 0;
}

static void timers(void)
{
	static char want[200][80];
	static const char *const nm[] = { "a", "total", "a rather long name of a timer, longer than twenty", "", "x%s", "twenty-characters-20" };
	char *key[6] = { 0 };
	int i, m = 0, n = R(7);
	sim = R(4) ? 5 : 0;
	for (i = 0; i < n; i++) {
		int j = R(6);
		if (!key[j]) key[j] = dup_exact(nm[j], strlen(nm[j]) + 1);
		LOG("tim_start %s\n", nm[j]);
		tim_start(key[j]);
		if (R(2)) tim_stop(key[j]);
		h_nontrivial++;
	}
	for (i = 0; i < 6; i++) if (key[i]) snprintf(want[m++], 80, "%-20s %0.3fr %0.3fu %0.3fs", nm[i], tim_get_real(nm[i]), tim_get_user(nm[i]), tim_get_system(nm[i]));
	LOG("tim_print_timers\n");
	tim_print_timers(begin(0));
	lines(end(), want, m, "tim_print_timers");
	if (n) tim_start(nm[0]);
	sim = 0;
	_tim_shutdown();
	for (i = 0; i < 6; i++) if (key[i]) __real_free(key[i]);
}

static void same(const char *what, const char *got)
{
	CHECK(!strcmp(got, buf), "%s wrote %s, expected %s", what, esc(got, -1), esc(buf, -1));
}

static void strings(void)
{
	int global = R(2), n = R(h_big ? 300 : 20), i, count = 0, bytes = 0, finds = 0;
	static char known[64];
	str_Pool p = global ? NULL : str_pool_create();
	str_Stats s;
	FILE *f;
	memset(known, 0, sizeof known);
	for (i = 0; i < n; i++) {
		int k = R(64);
		char *w;
		snprintf(buf, sizeof buf, "%.*s%d", (int)(k % 11), "abcdefghijk", k);
		w = dup_exact(buf, strlen(buf) + 1);
		LOG("find %s\n", w);
		if (global) str_find(w); else str_pool_find(p, w);
		if (!known[k]) known[k] = 1, count++, bytes += strlen(w) + 1;
		finds++;
		__real_free(w);
		h_nontrivial++;
	}
	LOG("%s\n", global ? "str_get_stats" : "str_pool_get_stats");
	s = global ? str_get_stats() : str_pool_get_stats(p);
	CHECK(s->count == count && s->bytes == bytes, "%d strings of %d bytes, there are %d of %d", s->count, s->bytes, count, bytes);
	CHECK(s->retrievals >= finds && s->hits >= 0 && s->misses >= 0 && s->hits + s->misses <= s->retrievals && s->misses >= count && s->retrievals - s->misses >= finds - count, "%d retrievals, %d hits, %d misses after %d searches for %d strings", s->retrievals, s->hits, s->misses, finds, count);
	f = begin(1);
	LOG("print\n");
	if (global) str_print_stats(f); else str_pool_print_stats(p, f);
	{
		const char *got = end(), *at = strstr(got, " at ");
		char where[40];
		CHECK(at && sscanf(at + 4, "%39[^:]", where) == 1, "no place: %s", esc(got, -1));
		if (!global) { char q[40]; snprintf(q, 40, "%p", (void *)p); CHECK(!strcmp(q, where), "the place is %s, not %s", where, q); }
		snprintf(buf, sizeof buf, "Statistics for %sstring pool at %s:\n   %d strings using %d bytes\n   %d retrievals (%d from top, %d failed)\n", global ? "global " : "", where, s->count, s->bytes,
			s->retrievals, s->hits, s->misses);
		same("statistics of strings", got);
	}
	free(s);
	if (global) str_destroy(); else str_pool_destroy(p);
	if (!global && R(3) == 0) {
		s = str_pool_get_stats(NULL);
		CHECK(!s->count && !s->bytes && !s->retrievals && !s->hits && !s->misses, "statistics of no pool");
		free(s);
	}
}

static void source(void)
{
	int n = R(h_big ? 2600 : 12), i, bytes = 0, toks = 0, used = 0;
	src_Stats s;
	FILE *f;
	int made = R(6) != 0;
	if (made) {
		src_create();
		src_new_file("f");
		for (i = 0; i < n; i++) {
			int l = R(30);
			memset(buf, 'x', l);
			buf[l] = '\n';
			buf[l + 1] = 0;
			if (R(8) == 0) src_new_line(R(5000));
			src_line(buf, l + 1);
			used++;
			bytes += l + 2;
			if (R(3) == 0) { src_get(1); toks++; }
			h_nontrivial++;
		}
		LOG("%d lines, %d tokens\n", used, toks);
	}
	s = src_get_stats();
	CHECK(s->lines_used == used && s->tokens_total == toks && s->lines_bytes == bytes && s->tokens_reused == 0 && s->lines_allocated >= used && (s->tokens_size > 0) == made,
		"lines %d of %d, bytes %d, tokens %d, reused %d, size %d; there are %d lines of %d bytes, %d tokens", s->lines_used, s->lines_allocated, s->lines_bytes, s->tokens_total, s->tokens_reused, s->tokens_size, used, bytes, toks);
	f = begin(1);
	LOG("src_print_stats\n");
	src_print_stats(f);
	snprintf(buf, sizeof buf, "Statistics for source manager:\n   %d lines using %d bytes (%d allocated)\n   %d tokens using %d bytes (%d reused)\n", s->lines_used, s->lines_bytes, s->lines_allocated, s->tokens_total,
		s->tokens_total * s->tokens_size, s->tokens_reused);
	same("src_print_stats", end());
	free(s);
	if (made) src_destroy();
}

static void tables(void)
{
	int n = R(h_big ? 400 : 20), i, is_set = R(2);
	static char k[400];
	char opt[60];
	void *t = is_set ? (void *)set_create(hsh_pointer_hash, hsh_pointer_compare) : (void *)hsh_create(hsh_pointer_hash, hsh_pointer_compare);
	hsh_Stats s;
	for (i = 0; i < n; i++) {
		char *e = k + R(400);
		if (is_set) { set_insert(t, e); set_member(t, k + R(400)); } else { hsh_insert(t, e, e); hsh_retrieve(t, k + R(400)); }
		h_nontrivial++;
	}
	LOG("%d insertions into a %s\n", n, is_set ? "set" : "table");
	FILE *f = begin(1);
	if (is_set) set_print_stats(t, f); else hsh_print_stats(t, f);
	const char *got = end();
	s = is_set ? (hsh_Stats)set_get_stats(t) : hsh_get_stats(t);
	if (s->buckets_used) snprintf(opt, sizeof opt, " (optimal is %.1f)", (double)s->entries / (double)s->buckets_used); else *opt = 0;
	snprintf(buf, sizeof buf, "Statistics for %s at %p:\n   %lu resizings to %lu total\n   %lu entries (%lu buckets used, %lu without overflow)\n   maximum list length is %lu%s\n   %lu retrievals (%lu from top, %lu failed)\n",
		is_set ? "set" : "hash table", t, s->resizings, s->size, s->entries, s->buckets_used, s->singletons, s->maximum_length, opt, s->retrievals, s->hits, s->misses);
	same(is_set ? "set_print_stats" : "hsh_print_stats", got);
	free(s);
	if (is_set) set_destroy(t); else hsh_destroy(t);
}

static void memory(void)
{
	int n = R(30), i, obj = R(2), used = 0, total = 0, reused = 0, bytes = 0, nf = 0;
	void *m = obj ? (void *)mem_create_objects(8 + R(40)) : (void *)mem_create_strings();
	void *o[64];
	for (i = 0; i < n; i++) {
		if (obj) {
			if (used && R(3) == 0) { mem_free_object(m, o[--used]); nf++; }
			else { o[used++] = mem_get_object(m); if (nf) nf--, reused++; else total++; }
		} else {
			int l = R(40);
			memset(buf, 'q', l);
			buf[l] = 0;
			mem_strcpy(m, buf);
			total++;
			bytes += l + 1;
		}
		h_nontrivial++;
	}
	LOG("%d %s\n", n, obj ? "objects" : "strings");
	FILE *f = begin(1);
	if (obj) mem_print_object_stats(m, f); else mem_print_string_stats(m, f);
	const char *got = end();
	if (obj) {
		mem_ObjectStats s = mem_get_object_stats(m);
		snprintf(buf, sizeof buf, "Statistics for object memory manager at %p:\n   %d objects allocated, of which %d are in use\n   %d objects have been reused\n", m, s->total, s->used, s->reused);
		CHECK(s->used == used, "%d objects in use, there are %d", s->used, used);
		CHECK(s->reused == reused, "%d objects reused, %d were", s->reused, reused);
		free(s);
	} else snprintf(buf, sizeof buf, "Statistics for string memory manager at %p:\n   %d strings, using %d bytes\n", m, total, bytes);
	same("mem_print_*_stats", got);
	if (obj) mem_destroy_objects(m); else mem_destroy_strings(m);
}

void run_case(void)
{
	long l0;
	str_destroy();
	l0 = h_live;
	switch (R(8)) {
	case 0: flags(0); break;
	case 1: case 2: flags(1); break;
	case 3: timers(); break;
	case 4: strings(); break;
	case 5: source(); break;
	case 6: tables(); break;
	case 7: memory(); break;
	}
	str_destroy();
	CHECK(h_live == l0, "%ld blocks are left behind", h_live - l0);
}
