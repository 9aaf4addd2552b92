/* C20: NULL, destroyed and wrong-kind handles are refused, and nothing is modified */
#include "h.h"
size_t __sanitizer_get_allocated_size(const volatile void *);
int __sanitizer_get_ownership(const volatile void *);

enum { K_HSH, K_SET, K_LST, K_SL, K_STR, K_OBJ, K_ARG, NK };
static const char *const kn[] = { "hash table", "set", "list", "skip list", "string memory", "object memory", "argument list" };
static int cb1(const void *a) { return 0; }
static int cb2(const void *a, const void *b) { return 0; }
static int cb2a(const void *a, void *b) { return 0; }
static int cb3(const void *a, const void *b, void *c) { return 0; }
static int cmp(const void *a, const void *b) { return (ul)a < (ul)b ? -1 : (ul)a > (ul)b; }
static const void *key(const void *d) { return d; }
static FILE *dn;
static void *other;                 /* a live set, for the two-operand functions */

#define OP(k, name, expr) static void o_##k##_##name(void *h) { expr; }
#define OPS \
	X(K_HSH, insert, hsh_insert(h, "a", "b")) X(K_HSH, delete, hsh_delete(h, "a")) X(K_HSH, retrieve, hsh_retrieve(h, "a")) \
	X(K_HSH, iterate, hsh_iterate(h, cb2)) X(K_HSH, iterate_arg, hsh_iterate_arg(h, cb3, 0)) X(K_HSH, get_stats, hsh_get_stats(h)) \
	X(K_HSH, print_stats, hsh_print_stats(h, dn)) X(K_HSH, init_position, hsh_init_position(h)) \
	X(K_HSH, next_position, hsh_next_position(h, 0)) X(K_HSH, readonly, hsh_readonly(h, 1)) X(K_HSH, destroy, hsh_destroy(h)) \
	X(K_SET, get_hash, set_get_hash(h)) X(K_SET, get_compare, set_get_compare(h)) X(K_SET, insert, set_insert(h, "a")) \
	X(K_SET, delete, set_delete(h, "a")) X(K_SET, member, set_member(h, "a")) X(K_SET, iterate, set_iterate(h, cb1)) \
	X(K_SET, iterate_arg, set_iterate_arg(h, cb2a, 0)) X(K_SET, add1, set_add(h, other)) X(K_SET, add2, set_add(other, h)) \
	X(K_SET, del1, set_del(h, other)) X(K_SET, del2, set_del(other, h)) X(K_SET, union1, set_union(h, other)) \
	X(K_SET, union2, set_union(other, h)) X(K_SET, inter1, set_inter(h, other)) X(K_SET, inter2, set_inter(other, h)) \
	X(K_SET, diff1, set_diff(h, other)) X(K_SET, diff2, set_diff(other, h)) X(K_SET, equal1, set_equal(h, other)) \
	X(K_SET, equal2, set_equal(other, h)) X(K_SET, get_stats, set_get_stats(h)) X(K_SET, print_stats, set_print_stats(h, dn)) \
	X(K_SET, count, set_count(h)) X(K_SET, init_position, set_init_position(h)) X(K_SET, next_position, set_next_position(h, 0)) \
	X(K_SET, readonly, set_readonly(h, 1)) X(K_SET, destroy, set_destroy(h)) \
	X(K_LST, append, lst_append(h, "a")) X(K_LST, push, lst_push(h, "a")) X(K_LST, pop, lst_pop(h)) X(K_LST, top, lst_top(h)) \
	X(K_LST, nth_get, lst_nth_get(h, 1)) X(K_LST, nth_set, lst_nth_set(h, 1, "a")) X(K_LST, member, lst_member(h, "a")) \
	X(K_LST, length, lst_length(h)) X(K_LST, iterate, lst_iterate(h, cb1)) X(K_LST, iterate_arg, lst_iterate_arg(h, cb2a, 0)) \
	X(K_LST, init_position, lst_init_position(h)) X(K_LST, last_position, lst_last_position(h)) \
	X(K_LST, nth_position, lst_nth_position(h, 1)) X(K_LST, truncate, lst_truncate(h, 0)) \
	X(K_LST, truncate_position, lst_truncate_position(h, 0)) X(K_LST, destroy, lst_destroy(h)) \
	X(K_SL, insert, sl_insert(h, "a")) X(K_SL, delete, sl_delete(h, "a")) X(K_SL, find, sl_find(h, "a")) \
	X(K_SL, iterate, sl_iterate(h, cb1)) X(K_SL, iterate_arg, sl_iterate_arg(h, cb2a, 0)) X(K_SL, destroy, sl_destroy(h)) \
	X(K_STR, strcpy, mem_strcpy(h, "abc")) X(K_STR, strncpy, mem_strncpy(h, "abc", 2)) X(K_STR, grow, mem_grow(h, "abc", 2)) \
	X(K_STR, finish, mem_finish(h)) X(K_STR, get_stats, mem_get_string_stats(h)) X(K_STR, print_stats, mem_print_string_stats(h, dn)) \
	X(K_STR, destroy, mem_destroy_strings(h)) \
	X(K_OBJ, get, mem_get_object(h)) X(K_OBJ, get_empty, mem_get_empty_object(h)) X(K_OBJ, free, mem_free_object(h, "a")) \
	X(K_OBJ, get_stats, mem_get_object_stats(h)) X(K_OBJ, print_stats, mem_print_object_stats(h, dn)) X(K_OBJ, destroy, mem_destroy_objects(h)) \
	X(K_ARG, add, arg_add(h, "a")) X(K_ARG, addn, arg_addn(h, "abc", 2)) X(K_ARG, grow, arg_grow(h, "abc", 2)) X(K_ARG, finish, arg_finish(h)) \
	X(K_ARG, get, arg_get(h, 0)) X(K_ARG, count, arg_count(h)) X(K_ARG, get_vector, int c; char **v; arg_get_vector(h, &c, &v)) \
	X(K_ARG, destroy, arg_destroy(h))
#define X(k, n, ...) static void o_##k##_##n(void *h) { __VA_ARGS__; }
OPS
#undef X
static const struct { int k; const char *n; void (*f)(void *); } ops[] = {
#define X(k, n, ...) { k, #n, o_##k##_##n },
	OPS
#undef X
};
#define NOPS ((int)(sizeof ops / sizeof *ops))

static int quiet_null(int i)
{
	return (ops[i].k == K_LST && !strcmp(ops[i].n, "append")) || (ops[i].k == K_SL && (!strcmp(ops[i].n, "iterate") || !strcmp(ops[i].n, "iterate_arg")));
}
static void *mk(int k)
{
	int i, n = R(5);
	void *h = NULL;
	switch (k) {
	case K_HSH: h = hsh_create(hsh_pointer_hash, hsh_pointer_compare); for (i = 0; i < n; i++) hsh_insert(h, (void *)(ul)(i + 1), "x"); break;
	case K_SET: h = set_create(hsh_pointer_hash, hsh_pointer_compare); for (i = 0; i < n; i++) set_insert(h, (void *)(ul)(i + 1)); break;
	case K_LST: h = lst_create(); for (i = 0; i < n; i++) lst_append(h, (void *)(ul)(i + 1)); break;
	case K_SL: h = sl_create(cmp, key, NULL); for (i = 0; i < n; i++) sl_insert(h, (void *)(ul)(i + 1)); break;
	case K_STR: h = mem_create_strings(); for (i = 0; i < n; i++) mem_strcpy(h, "xyz"); break;
	case K_OBJ: h = mem_create_objects(8 + R(30)); for (i = 0; i < n; i++) mem_get_object(h); break;
	case K_ARG: h = arg_create(); for (i = 0; i < n; i++) arg_add(h, "xyz"); break;
	}
	CHECK(h, "NULL");
	return h;
}
static void unmk(int k, void *h)
{
	switch (k) {
	case K_HSH: hsh_destroy(h); break;
	case K_SET: set_destroy(h); break;
	case K_LST: lst_destroy(h); break;
	case K_SL: sl_destroy(h); break;
	case K_STR: mem_destroy_strings(h); break;
	case K_OBJ: mem_destroy_objects(h); break;
	case K_ARG: arg_destroy(h); break;
	}
}
static void refuse(int i, void *h, const char *what)
{
	size_t n = h ? __sanitizer_get_allocated_size(h) : 0, m = __sanitizer_get_allocated_size(other);
	char *before = malloc(n + 1), *ob = malloc(m + 1);
	long live;
	if (h) memcpy(before, h, n);
	memcpy(ob, other, m);
	LOG("%s %s on %s\n", kn[ops[i].k], ops[i].n, what);
	live = h_live;
	MUST(E_INTERNAL, ops[i].f(h), "%s: %s accepts %s", kn[ops[i].k], ops[i].n, what);
	if (h) {
		if (!__sanitizer_get_ownership(h)) FAIL("%s: %s released %s", kn[ops[i].k], ops[i].n, what);
		CHECK(!memcmp(before, h, n), "%s: %s modified %s", kn[ops[i].k], ops[i].n, what);
	}
	CHECK(!memcmp(ob, other, m), "%s: %s modified the other operand", kn[ops[i].k], ops[i].n);
	CHECK(h_live >= live, "%s: %s released memory", kn[ops[i].k], ops[i].n);
	free(before);
	free(ob);
	h_nontrivial++;
}
/* contents of a handle at the moment its memory is released */
static void *watch;
static char *stale;
static size_t stale_n;
void h_on_free(void *p)
{
	if (p && p == watch && !stale) {
		stale_n = __sanitizer_get_allocated_size(p);
		stale = malloc(stale_n);
		memcpy(stale, p, stale_n);
	}
}
static const unsigned tags[] = { HSH_MAGIC, SET_MAGIC, LST_MAGIC, SL_LIST_MAGIC, MEM_STRINGS_MAGIC, MEM_OBJECTS_MAGIC, ARG_MAGIC,
	HSH_MAGIC_FREED, SET_MAGIC_FREED, LST_MAGIC_FREED, SL_LIST_MAGIC_FREED, MEM_STRINGS_MAGIC_FREED, MEM_OBJECTS_MAGIC_FREED, ARG_MAGIC_FREED,
	SL_ENTRY_MAGIC, SL_ENTRY_MAGIC_FREED, PR_MAGIC, PR_MAGIC_FREED };
/* a copy of a live handle with one bit of its tag flipped, or another tag in its place */
static void near_miss(void)
{
	int k = R(NK), i, at = -1, n, found = 0;
	void *h = mk(k);
	unsigned *g;
	size_t sz = __sanitizer_get_allocated_size(h);
	g = malloc(sz);
	memcpy(g, h, sz);
	for (i = 0; i < (int)(sz / 4); i++) if (g[i] == tags[k]) { at = i; found++; }
	if (found == 1) {
		g[at] = R(2) ? g[at] ^ (1u << R(32)) : tags[R(sizeof tags / sizeof *tags)];
		LOG("tag 0x%x instead of 0x%x\n", g[at], tags[k]);
		if (g[at] != tags[k]) for (n = 0; n < 6; n++) {
			do i = R(NOPS); while (ops[i].k != k);
			refuse(i, g, "a handle with another tag");
		}
	}
	free(g);
	unmk(k, h);
}
void run_case(void)
{
	int i, k, j;
	void *h;
	if (!dn) dn = fopen("/dev/null", "w");
	other = set_create(hsh_pointer_hash, hsh_pointer_compare);
	if (R(2)) set_insert(other, "q");
	set_readonly(other, 0);
	switch (R(5)) {
	case 4: near_miss(); break;
	case 0:
		i = R(NOPS);
		if (quiet_null(i)) {
			LOG("%s %s(NULL), documented as harmless\n", kn[ops[i].k], ops[i].n);
			ops[i].f(NULL);
		} else refuse(i, NULL, "NULL");
		break;
	case 1:
		for (j = 0; j < 8; j++) {
			k = R(NK);
			h = mk(k);
			do i = R(NOPS); while (ops[i].k == k);
			refuse(i, h, kn[k]);
			unmk(k, h);
		}
		break;
	case 2:
		for (j = 0; j < 8; j++) {
			size_t n = 8 + R(20) * 8, q;
			unsigned char *g = malloc(n), z = R(3);
			for (q = 0; q < n; q++) g[q] = z == 0 ? 0 : z == 1 ? R(256) : 255;
			refuse(R(NOPS), g, "a block that is no object");
			free(g);
		}
		break;
	case 3:
		k = R(NK);
		h = mk(k);
		stale = NULL;
		watch = h;
		LOG("destroy a %s\n", kn[k]);
		unmk(k, h);
		watch = NULL;
		if (!stale && __sanitizer_get_ownership(h)) { watch = h; h_on_free(h); watch = NULL; }	/* kept for reuse */
		CHECK(stale, "destroying the %s did not release its handle", kn[k]);
		for (i = 0; i < NOPS; i++) if (ops[i].k == k) refuse(i, stale, "a destroyed handle");
		free(stale);
		break;
	}
	set_readonly(other, 0);
	set_destroy(other);
}
