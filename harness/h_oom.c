/* C21: every allocation failure ends in the fatal report */
#include "h.h"
#include "maa.h"

static hsh_HashTable ht;
static set_Set s1, s2;
static lst_List ls;
static stk_Stack st;
static sl_List sk;
static mem_String ms;
static mem_Object mo;
static str_Pool pool;
static arg_List ar;
static FILE *dn;
static int serial;
static int cmp(const void *a, const void *b) { return (ul)a < (ul)b ? -1 : (ul)a > (ul)b; }
static const void *key(const void *d) { return d; }
static const char *w(void) { static char b[64][16]; char *r = b[R(64)]; snprintf(r, 16, "w%d", serial++); return dup_exact(r, strlen(r) + 1); }
static void *u(void) { return (void *)(ul)++serial; }

static void create(void)
{
	ht = hsh_create(NULL, NULL);
	s1 = set_create(hsh_pointer_hash, hsh_pointer_compare);
	s2 = set_create(hsh_pointer_hash, hsh_pointer_compare);
	ls = lst_create();
	st = stk_create();
	sk = sl_create(cmp, key, NULL);
	ms = mem_create_strings();
	mo = mem_create_objects(24);
	pool = str_pool_create();
	ar = arg_create();
}
#define NOP 47
static void op(int o)
{
	void *p;
	int i, c;
	char **v;
	switch (o) {
	case 0: case 1: hsh_insert(ht, w(), "x"); break;
	case 2: xfree(hsh_get_stats(ht)); break;
	case 3: set_insert(s1, u()); break;
	case 4: set_insert(s2, u()); break;
	case 5: set_destroy(set_union(s1, s2)); break;
	case 6: set_destroy(set_inter(s1, s2)); break;
	case 7: set_destroy(set_diff(s1, s2)); break;
	case 8: set_add(s1, s2); break;
	case 9: xfree(set_get_stats(s1)); break;
	case 10: set_insert(s1, (void *)(ul)(1 + R(serial + 1))); break;
	case 11: lst_append(ls, "a"); break;
	case 12: lst_push(ls, "a"); break;
	case 13: lst_pop(ls); break;
	case 14: stk_push(st, u()); break;
	case 15: sl_insert(sk, u()); break;
	case 16: mem_strcpy(ms, w()); break;
	case 17: mem_strncpy(ms, "abcdef", R(7)); break;
	case 18: mem_grow(ms, "abcdef", 1 + R(6)); break;
	case 19: mem_finish(ms); break;
	case 20: xfree(mem_get_string_stats(ms)); break;
	case 21: p = mem_get_object(mo); if (R(2)) mem_free_object(mo, p); break;
	case 22: p = mem_get_empty_object(mo); if (R(2)) mem_free_object(mo, p); break;
	case 23: xfree(mem_get_object_stats(mo)); break;
	case 24: str_pool_find(pool, w()); break;
	case 25: str_pool_grow(pool, "abc", 1 + R(3)); str_pool_finish(pool); break;
	case 26: str_pool_copyn(pool, "abc", R(4)); break;
	case 27: xfree(str_pool_get_stats(pool)); break;
	case 28: str_find(w()); break;
	case 29: str_findn("abcdef", R(7)); break;
	case 30: str_unique("pre"); break;
	case 31: str_grow("abc", 1 + R(3)); str_finish(); break;
	case 32: arg_add(ar, w()); break;
	case 33: arg_addn(ar, "abc", R(4)); break;
	case 34: arg_grow(ar, "abc", 1 + R(3)); arg_finish(ar); break;
	case 35: arg_destroy(arg_argify("a \"b c\"d 'e' \\f g h i", 0)); break;
	case 36: src_line("line\n", R(6)); break;
	case 37: src_line("x", 1); src_get(1 + R(4)); break;
	case 38: src_new_file(w()); break;
	case 39: xfree(src_get_stats()); break;
	case 40: dbg_register(1UL << R(30), w()); break;
	case 41: flg_register(1UL << R(30), w()); break;
	case 42: tim_start(w()); break;
	case 43: log_stream("id", fopen("/dev/null", "w")); log_stream(NULL, NULL); break;
	case 44: prs_register_concrete(w(), "c"); break;
	case 45: create(); break;
	case 46: i = R(3); if (i == 0) xfree(xmalloc(1 + R(100))); else if (i == 1) xfree(xcalloc(1 + R(5), 1 + R(9))); else xfree(xrealloc(xmalloc(4), 1 + R(99))); break;
	}
	(void)c; (void)v;
}
static void allocators(void)
{
	size_t n = 1 + R(300), i, k = 1 + R(9), m;
	unsigned char *p = xmalloc(n), *q, *s;
	char t[40];
	LOG("allocators %lu\n", (ul)n);
	CHECK(p, "xmalloc NULL");
	for (i = 0; i < n; i++) p[i] = i * 7 + 1;
	q = xcalloc(k, n);
	CHECK(q && q != p, "xcalloc");
	for (i = 0; i < k * n; i++) { CHECK(!q[i], "xcalloc block not zero"); q[i] = 255; }
	m = 1 + R(600);
	s = xrealloc(p, m);
	CHECK(s, "xrealloc NULL");
	for (i = 0; i < n && i < m; i++) CHECK(s[i] == (unsigned char)(i * 7 + 1), "xrealloc lost byte %lu", (ul)i);
	for (i = 0; i < m; i++) s[i] = 1;
	xfree(q);
	xfree(s);
	n = R(39);
	memset(t, 'k', n);
	t[n] = 0;
	p = (unsigned char *)dup_exact(t, n + 1);
	q = (unsigned char *)xstrdup((char *)p);
	CHECK(q && q != p && !memcmp(q, p, n + 1), "xstrdup");
	memset(q, 1, n + 1);
	xfree(p);
	xfree(q);
	k = R(20);
	LOG("array of 2^%lu blocks of 2^%lu bytes\n", (ul)(32 + k), (ul)(32 + k / 3));
	MUST(E_FATAL, xcalloc((size_t)1 << (32 + k), (size_t)1 << (32 + k / 3)), "an array larger than the address space was handed out");
	MUST(E_FATAL, xfree(NULL), "xfree(NULL) not refused");
	h_fail_at = 1;
	switch (R(4)) {
	case 0: MUST(E_FATAL, xmalloc(n), "xmalloc: failure not reported"); break;
	case 1: MUST(E_FATAL, xcalloc(n, k), "xcalloc: failure not reported"); break;
	case 2: p = malloc(10); h_fail_at = 1; MUST(E_FATAL, xrealloc(p, 100), "xrealloc: failure not reported"); break;
	case 3: MUST(E_FATAL, xstrdup(t), "xstrdup: failure not reported"); break;
	}
	h_fail_at = 0;
}
static void one(void)
{
	int i, n = h_big ? 400 : R(60), o, k;
	dn = fopen("/dev/null", "w");
	if (R(4)) create();
	else { n = 0; LOG("fresh library\n"); }
	for (i = 0; i < n; i++) { o = R(NOP); if (o == 45) continue; LOG("op %d\n", o); op(o); }
	do o = R(NOP); while (!ht && o < 28 && o != 45);
	if (!ar && o >= 32 && o <= 34) o = 45;
	k = 1 + R(o == 45 ? 20 : 5);
	LOG("op %d with allocation %d failing\n", o, k);
	h_fail_at = k;
	{
		int e = ERR(op(o));
		if (h_failed) CHECK(e == E_FATAL, "operation %d, allocation %d fails: %s", o, k, e == E_NONE ? "no report" : "wrong report");
		else CHECK(e == E_NONE, "operation %d fails although no allocation did", o);
	}
}
void run_case(void)
{
	pid_t p;
	int s;
	if (R(8) == 0) { allocators(); return; }
	fflush(NULL);
	p = fork();
	if (!p) {
		one();
		_exit(h_failed ? 11 : 0);
	}
	if (p < 0) return;
	while (waitpid(p, &s, 0) < 0 && errno == EINTR);
	if (WIFEXITED(s) && WEXITSTATUS(s) == 11) h_nontrivial++;
	if (WIFEXITED(s) && (WEXITSTATUS(s) == 0 || WEXITSTATUS(s) == 11)) return;
	/* the child printed the failing case */
	h_silent();
	FAIL("child ended with status 0x%x", s);
}
