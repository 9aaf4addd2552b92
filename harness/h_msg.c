/* C29: messages that quote a place in a source, against the documented text */
#include "h.h"

void __real_free(void *);
static char want[40000];
static int wl;
static void W(const char *f, ...) { va_list ap; va_start(ap, f); wl += vsnprintf(want + wl, sizeof want - wl, f, ap); va_end(ap); }
static void Wc(int c) { want[wl++] = c; want[wl] = 0; }

typedef struct { src_Type t; const char *file, *line; int no, off, len; } Tok;
static const char *const syms[] = { "T_", "T_IDENTIFIER", "T_A", "T_PLUS", "T_x y" };
static const char *const exps[] = { "nothing", "identifier", "", "+", "%s" };
static int regd[5];

static void place(const Tok *t) { if (t) W("%s:%d: ", t->file ? t->file : "(null)", t->no); else W("?:?: "); }
static void line(const Tok *t) { if (t) { place(t); W("%s", t->line); } else W("?:?: <source line not available>\n"); }
static void marked(const Tok *t)
{
	int i;
	line(t);
	place(t);
	if (t) { for (i = 0; i < t->off; i++) Wc(' '); for (i = 0; i < t->len; i++) Wc('^'); }
	Wc('\n');
}
static void yy(const char *m)
{
	if (!m) { W("(null)"); return; }
	while (*m) {
		if (*m == '`' && m[1] == '`' && m[2] && m[3] == '\'' && m[4] == '\'') { W("`%c'", m[2]); m += 5; }
		else if (*m == '`' && m[1] == 'T' && m[2] == '_') {
			char name[1100];
			const char *e = m + 1;
			int k, n;
			while (*e && *e != '\'') e++;
			n = e - (m + 1);
			if (n > 1023) n = 1023;
			memcpy(name, m + 1, n);
			name[n] = 0;
			for (k = 0; k < 5; k++) if (regd[k] && !strcmp(syms[k], name)) break;
			W("`%s'", k < 5 ? exps[k] : name);
			m = *e ? e + 1 : e;
		} else Wc(*m++);
	}
}
static char *message(void)
{
	char b[6000];
	int n = 0, parts = R(7), k;
	while (parts--) {
		switch (R(9)) {
		case 0: n += sprintf(b + n, "parse error, expecting "); break;
		case 1: n += sprintf(b + n, "`%s'", syms[R(5)]); break;
		case 2: n += sprintf(b + n, "``%c''", "x'`T%"[R(5)]); break;
		case 3: n += sprintf(b + n, "`T_%s", R(2) ? "NEVER'" : ""); break;
		case 4: b[n++] = '`'; break;
		case 5: b[n++] = "`'T_ %\xe4\n"[R(8)]; break;
		case 6: n += sprintf(b + n, "``%s", R(2) ? "x'" : ""); break;
		case 7:
			if (n < 2500 && R(3) == 0) {
				n += sprintf(b + n, "`T_");
				for (k = 1015 + R(20); k--;) b[n++] = 'a' + R(3);
				if (R(2)) b[n++] = '\'';
			}
			break;
		default: n += sprintf(b + n, "%d,%s", (int)R(100), "%d%n"); break;
		}
	}
	return dup_exact((b[n] = 0, b), n + 1);
}

void run_case(void)
{
	static char *text;
	static size_t len;
	Tok t[12];
	int nt = 0, i, n, have, base = 1;
	char *kept[12];
	int nk = 0, live = R(5) != 0;
	FILE *out = stdout, *mem;

	for (i = 0; i < 5; i++) {
		regd[i] = R(2);
		if (regd[i]) prs_register_concrete(syms[i], exps[i]);
	}
	if (live) {
		const char *file = NULL, *cur = NULL;
		int no = 1, off = 0;
		src_create();
		n = 1 + R(10);
		for (i = 0; i < n; i++) {
			if (R(3) == 0) { file = (const char *[]){ "a.c", "dir/b.y", "", "x%d" }[R(4)]; src_new_file(file); }
			if (R(3) == 0) { no = R(3) ? (int)R(3000) : -(int)R(5); src_new_line(no); base = 0; }
			if (!cur || R(2)) {
				char b[300];
				int k, l = R(h_big ? 200 : 20);
				for (k = 0; k < l; k++) b[k] = " abc%s(){}"[R(10)];
				if (R(5)) b[l++] = '\n';
				cur = src_line(b, l);
				if (base) { src_new_line(1); no = 1; base = 0; } else no++;
				kept[nk++] = dup_exact((b[l] = 0, b), l + 1);
				off = 0;
			}
			if (nt < 12) {
				t[nt].len = R(8);
				t[nt].t = src_get(t[nt].len);
				t[nt].file = file;
				t[nt].no = no;
				t[nt].off = off;
				t[nt].line = kept[nk - 1];
				off += t[nt].len;
				nt++;
			}
			if (R(4) == 0) { int a = (int)R(6) - 3; src_advance(a); off += a; }
		}
	}
	n = 1 + R(6);
	for (i = 0; i < n; i++) {
		Tok *k = nt && R(6) ? &t[R(nt)] : NULL;
		src_Type s = k ? k->t : NULL;
		int tostd = R(4) == 0;
		FILE *arg;
		char *m = R(8) ? message() : NULL;
		mem = open_memstream(&text, &len);
		if (tostd) stdout = mem;
		arg = tostd && R(3) ? NULL : mem;
		wl = 0;
		want[0] = 0;
		switch (R(4)) {
		case 0:
			LOG("src_print_line(%s, %s)\n", arg ? "stream" : "NULL", s ? "token" : "NULL");
			src_print_line(arg, s);
			line(k);
			break;
		case 1:
			LOG("src_parse_error(%s, %s, %s)\n", arg ? "stream" : "NULL", s ? "token" : "NULL", esc(m, -1));
			src_parse_error(arg, s, m);
			place(k);
			yy(m);
			Wc('\n');
			marked(k);
			h_nontrivial++;
			break;
		case 2:
			LOG("src_print_error(%s, %s, %s)\n", arg ? "stream" : "NULL", s ? "token" : "NULL", m ? "\"%s|%d\"" : "NULL");
			if (m) src_print_error(arg, s, "%s|%d", m, i); else src_print_error(arg, s, NULL);
			if (m) { place(k); W("%s|%d\n", m, i); }
			marked(k);
			h_nontrivial++;
			break;
		default:
			LOG("src_print_message(%s, %s, %s)\n", arg ? "stream" : "NULL", s ? "token" : "NULL", m ? "\"%s|%d\"" : "NULL");
			if (m) src_print_message(arg, s, "%s|%d", m, i); else src_print_message(arg, s, NULL);
			if (m) { place(k); W("%s|%d\n", m, i); }
		}
		stdout = out;
		fclose(mem);
		if (k) LOG("  token: file %s line %d offset %d length %d text %s\n", k->file ? k->file : "NULL", k->no, k->off, k->len, esc(k->line, -1));
		CHECK((int)len == wl && !memcmp(text, want, len), "printed %s, expected %s", esc(text, len), esc(want, wl));
		__real_free(text);
		if (m) __real_free(m);
	}
	have = live;
	if (have) src_destroy();
	_prs_shutdown();
	str_destroy();
	for (i = 0; i < nk; i++) __real_free(kept[i]);
}
