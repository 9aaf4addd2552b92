/* C22: tokens against a table of what was in force when they were recorded */
#include "h.h"

typedef struct { src_Type t; const char *file; int line, off, len, idx; } T;
static char **lines;
static int nl, capl;
static T *tok;
static int nt, capt;
static const char *file;
static int line, off, mgr;

static void reset(void)
{
	int i;
	for (i = 0; i < nl; i++) free(lines[i]);
	if (mgr) {		/* without a manager there is nothing to destroy */
		file = NULL;
		line = off = 0;
	}
	nl = nt = mgr = 0;
}
static void check_tok(T *t)
{
	const char *f = src_filename(t->t), *l;
	CHECK((!f && !t->file) || (f && t->file && !strcmp(f, t->file)), "file %s, expected %s", esc(f, -1), esc(t->file, -1));
	CHECK(src_linenumber(t->t) == t->line, "line %d, expected %d", src_linenumber(t->t), t->line);
	CHECK(src_offset(t->t) == t->off, "offset %d, expected %d", src_offset(t->t), t->off);
	CHECK(src_length(t->t) == t->len, "length %d, expected %d", src_length(t->t), t->len);
	if (t->idx >= nl) return;	/* no line stored yet */
	l = src_source_line(t->t);
	CHECK(l && !strcmp(l, lines[t->idx]), "source line %s, expected %s", esc(l, -1), esc(lines[t->idx], -1));
	if (R(10) == 0 && t->file) {
		char *b = NULL, *e;
		size_t n = 0;
		FILE *m = open_memstream(&b, &n);
		src_print_line(m, t->t);
		fclose(m);
		e = malloc(strlen(t->file) + strlen(lines[t->idx]) + 40);
		sprintf(e, "%s:%d: %s", t->file, t->line, lines[t->idx]);
		CHECK(!strcmp(b, e), "printed line %s, expected %s", esc(b, -1), esc(e, -1));
		free(b);
		free(e);
	}
}
static void none(void)
{
	src_Stats s;
	MUST(E_FATAL, src_get(1), "src_get before a line was stored");
	MUST(E_FATAL, src_filename(NULL), "src_filename before a line was stored");
	MUST(E_FATAL, src_linenumber(NULL), "src_linenumber before a line was stored");
	MUST(E_FATAL, src_offset(NULL), "src_offset before a line was stored");
	MUST(E_FATAL, src_length(NULL), "src_length before a line was stored");
	MUST(E_FATAL, src_source_line(NULL), "src_source_line before a line was stored");
	s = src_get_stats();
	CHECK(!s->lines_used && !s->tokens_total, "statistics of nothing");
	xfree(s);
}
static void op(void)
{
	int n, i, k;
	char *b, *x;
	const char *p;
	switch (R(h_big ? 7 : 10)) {
	case 0: case 1: case 2:
		n = R(10) == 0 ? R(300) : R(10);
		b = malloc(n + 1);
		for (i = 0; i < n; i++) b[i] = R(30) == 0 ? R(256) : "\tab \n"[R(5)];
		b[n] = 0;
		x = dup_exact(b, n);
		LOG("line %s %d\n", esc(b, n), n);
		p = src_line(x, n);
		CHECK(!memcmp(x, b, n), "src_line modified its argument");
		free(x);
		for (i = 0; i < n; i++) if (b[i] == '\t') b[i] = ' ';
		CHECK(p && !strcmp(p, b), "src_line returned %s, expected %s", esc(p, -1), esc(b, -1));
		if (nl == capl) { capl = capl * 2 + 64; lines = realloc(lines, capl * sizeof(char *)); }
		lines[nl++] = b;
		mgr = 1;
		line++;
		off = 0;
		break;
	case 3: case 4: case 5:
		n = R(20);
		if (!mgr && R(3) == 0) { LOG("create\n"); src_create(); mgr = 1; }
		if (!mgr) { none(); break; }
		if (nt == capt) { capt = capt * 2 + 64; tok = realloc(tok, capt * sizeof(T)); }
		LOG("get %d\n", n);
		tok[nt].t = src_get(n);
		CHECK(tok[nt].t, "NULL token");
		for (i = 0; i < nt && i < 50; i++) CHECK(tok[R(nt)].t != tok[nt].t, "two tokens are the same object");
		tok[nt].file = file;
		tok[nt].line = line;
		tok[nt].off = off;
		tok[nt].len = n;
		tok[nt].idx = nl ? nl - 1 : 0;
		nt++;
		off += n;
		h_nontrivial++;
		break;
	case 6:
		n = R(30);
		LOG("advance %d\n", n);
		src_advance(n);
		off += n;
		break;
	case 7: {
		static const char *const f[] = { "a.c", "dir/b.h", "", "x" };
		k = R(4);
		LOG("file %s\n", f[k]);
		x = dup_exact(f[k], strlen(f[k]) + 1);
		src_new_file(x);
		memset(x, 'Z', strlen(f[k]));
		free(x);
		file = f[k];
		break;
	}
	case 8:
		n = R(10000);
		LOG("new_line %d\n", n);
		src_new_line(n);
		line = n;
		break;
	case 9:
		if (nl && R(3) == 0) {
			char *o = NULL;
			size_t on = 0;
			FILE *m = open_memstream(&o, &on);
			static const char *const msg[] = { "parse error", "unexpected `T_FOO', expecting ``x''", "`T_", "``", "`", "" };
			if (nl && nt && file) src_parse_error(m, R(4) ? tok[R(nt)].file ? tok[R(nt)].t : NULL : NULL, msg[R(6)]);
			fclose(m);
			free(o);
			break;
		}
		n = R(3);
		b = malloc(100);
		k = R(3) == 0 ? 0 : R(5000);
		if (n == 0) sprintf(b, "# %d", k);
		else sprintf(b, "#line %d \"f%d.h\" 1", k, (int)R(3));
		if (n) memmove(b + 1, b + 5, strlen(b + 5) + 1);
		x = dup_exact(b, strlen(b));
		LOG("cpp_line %s\n", esc(b, -1));
		src_cpp_line(x, strlen(b));
		free(x);
		line = k > 0 ? k - 1 : 1;
		if (n) { static const char *const g[] = { "f0.h", "f1.h", "f2.h" }; file = g[strchr(b, '"')[2] - '0']; }
		free(b);
		break;
	}
}
void run_case(void)
{
	int i, k, n = h_big ? 3000 : R(60);
	src_Stats s;
	src_line("", 0);
	src_destroy();
	nl = mgr = 1;
	lines = lines ? lines : calloc(capl = 64, sizeof(char *));
	lines[0] = NULL;
	reset();
	for (k = 0; k < 1 + (int)R(3); k++) {
		if (R(2)) none();
		for (i = 0; i < n; i++) {
			op();
			if (nt && R(3) == 0) check_tok(&tok[R(nt)]);
			if (mgr && R(20) == 0) {
				CHECK(!strcmp(src_filename(NULL), "") && !strcmp(src_source_line(NULL), "") && !src_linenumber(NULL)
					  && !src_offset(NULL) && !src_length(NULL), "NULL token");
			}
		}
		for (i = 0; i < nt; i++) check_tok(&tok[i]);
		s = src_get_stats();
		CHECK(s->lines_used == nl && s->tokens_total == nt, "statistics: %d lines %d tokens, expected %d %d", s->lines_used, s->tokens_total, nl, nt);
		xfree(s);
		LOG("destroy\n");
		src_destroy();
		if (k == 2 && mgr) src_destroy();
		reset();
		none();
	}
}
