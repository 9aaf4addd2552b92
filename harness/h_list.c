/* C06 C07: lists and stacks against an array */
#include "h.h"

typedef struct { void *h; const void **a; int n, cap; } Q;
static Q mk(void *h) { Q q; memset(&q, 0, sizeof q); q.h = h; CHECK(h, "create returned NULL"); return q; }
static void room(Q *q) { if (q->n + 2 > q->cap) { q->cap = q->cap * 2 + 16; q->a = realloc(q->a, q->cap * sizeof(void *)); } }
static const void *datum(void) { static int pool[12]; return R(9) ? (const void *)&pool[R(12)] : R(2) ? NULL : (const void *)R64(); }

static Q *cur;
static int pos, stop, arg0;
static int vis(const void *d)
{
	CHECK(pos < cur->n, "iteration presents more than %d elements", cur->n);
	CHECK(d == cur->a[pos], "iteration: element %d is wrong", pos + 1);
	pos++;
	return pos == stop ? (R(2) ? 1 : -7) : 0;
}
static int visa(const void *d, void *a) { CHECK(a == &arg0, "wrong callback argument"); return vis(d); }

static void list_full(Q *q)
{
	int i, r;
	lst_Position p;
	CHECK((int)lst_length(q->h) == q->n, "length %u, expected %d", lst_length(q->h), q->n);
	CHECK(lst_top(q->h) == (q->n ? q->a[0] : NULL), "first element");
	for (i = 0, p = lst_init_position(q->h); p; p = lst_next_position(p), i++) {
		CHECK(i < q->n && lst_get_position(p) == q->a[i], "position walk: element %d", i + 1);
		if (i < 70 || R(20) == 0) {
			CHECK(lst_nth_position(q->h, i + 1) == p, "nth_position %d", i + 1);
			CHECK(lst_nth_get(q->h, i + 1) == q->a[i], "nth_get %d", i + 1);
		}
		if (i == q->n - 1) CHECK(lst_last_position(q->h) == p, "last position");
	}
	CHECK(i == q->n, "position walk presents %d of %d", i, q->n);
	{
		lst_Position p2;
		void *e, *e2;
		lst_List one = NULL;
		i = 0;
		LST_ITERATE(q->h, p, e) { CHECK(i < q->n && e == q->a[i], "LST_ITERATE: element %d", i + 1); i++; }
		CHECK(i == q->n, "LST_ITERATE presents %d of %d", i, q->n);
		if (R(8) == 0) {
			int k, m = R(q->n + 3);
			one = lst_create();
			for (k = 0; k < m; k++) lst_append(one, &arg0 + k % 1);
			i = 0;
			LST_ITERATE2(q->h, one, p, p2, e, e2) { CHECK(i < q->n && i < m && e == q->a[i] && e2 == &arg0, "LST_ITERATE2: element %d", i + 1); i++; }
			CHECK(i == (m < q->n ? m : q->n), "LST_ITERATE2 presents %d of %d and %d", i, q->n, m);
			lst_destroy(one);
		}
		i = q->n;
	}
	if (!q->n) CHECK(!lst_last_position(q->h) && !lst_init_position(q->h), "positions of an empty list");
	CHECK(!lst_nth_get(q->h, 0) && !lst_nth_get(q->h, q->n + 1) && !lst_nth_get(q->h, UINT_MAX), "nth_get outside the list");
	CHECK(!lst_next_position(NULL) && !lst_get_position(NULL), "NULL position");
	cur = q;
	pos = 0;
	stop = R(2) ? 0 : 1 + R(q->n + 2);
	r = R(2) ? lst_iterate(q->h, vis) : lst_iterate_arg(q->h, visa, &arg0);
	if (stop && stop <= q->n) CHECK(r && pos == stop, "iteration did not stop at the non-zero result");
	else CHECK(!r && pos == q->n, "iteration presents %d of %d", pos, q->n);
}

static void list_op(Q *q)
{
	int i, n;
	const void *d = datum();
	switch (R(12)) {
	case 0: case 1: case 2: case 3:
		LOG("append %p\n", d);
		room(q);
		lst_append(q->h, d);
		q->a[q->n++] = d;
		break;
	case 4: case 5:
		LOG("push %p\n", d);
		room(q);
		lst_push(q->h, d);
		memmove(q->a + 1, q->a, q->n * sizeof(void *));
		q->a[0] = d;
		q->n++;
		break;
	case 6: case 7: {
		void *r;
		LOG("pop\n");
		r = lst_pop(q->h);
		CHECK(r == (q->n ? q->a[0] : NULL), "pop returned %p", r);
		if (q->n) { q->n--; memmove(q->a, q->a + 1, q->n * sizeof(void *)); }
		break;
	}
	case 8:
		if (R(4)) {
			n = R(q->n + 3);
			LOG("nth_set %d %p\n", n, d);
			if (n < 1 || n > q->n) {
				CHECK(ERR(lst_nth_set(q->h, n, d)) == E_FATAL, "nth_set outside the list not refused");
			} else { lst_nth_set(q->h, n, d); q->a[n - 1] = d; }
		} else if (q->n) {
			n = 1 + R(q->n);
			LOG("set_position %d %p\n", n, d);
			lst_set_position(lst_nth_position(q->h, n), d);
			q->a[n - 1] = d;
		}
		break;
	case 9:
		if (R(3)) {
			if (R(4)) return;
			n = R(3) ? (q->n ? q->n - (int)R(q->n < 6 ? q->n + 1 : 6) : 0) : (int)R(q->n + 3);
			LOG("truncate %d\n", n);
			lst_truncate(q->h, n);
			if (n < q->n) q->n = n;
		} else {
			n = R(q->n + 1);
			if (R(2) && q->n) n = q->n;
			LOG("truncate_position %d\n", n);
			lst_truncate_position(q->h, n ? lst_nth_position(q->h, n) : NULL);
			q->n = n;
		}
		break;
	case 10: {
		int m = 0;
		LOG("member %p\n", d);
		for (i = 0; i < q->n; i++) if (q->a[i] == d) m = 1;
		CHECK(!!lst_member(q->h, d) == m, "member, expected %d", m);
		break;
	}
	case 11:
		if (R(3) == 0) { LOG("check\n"); list_full(q); }
		break;
	}
	CHECK((int)lst_length(q->h) == q->n, "length %u, expected %d", lst_length(q->h), q->n);
}

static void stack_case(void)
{
	Q q[2] = { mk(stk_create()), mk(stk_create()) };
	int i, n = h_big ? 5000 : R(4) ? R(60) : R(500), bias = 3 + R(6);
	long live = h_live;
	for (i = 0; i < n; i++) {
		Q *s = &q[R(5) == 0];
		const void *d = datum();
		if ((int)R(10) < bias) {
			LOG("push %p\n", d);
			room(s);
			stk_push(s->h, (void *)d);
			s->a[s->n++] = d;
		} else if (R(3)) {
			void *r = stk_pop(s->h);
			LOG("pop -> %p\n", r);
			CHECK(r == (s->n ? s->a[s->n - 1] : NULL), "pop returned %p", r);
			if (s->n) s->n--;
		} else {
			LOG("top\n");
			CHECK(stk_top(s->h) == (s->n ? s->a[s->n - 1] : NULL), "top");
		}
		CHECK(stk_isempty(s->h) == (s->n == 0), "isempty is %d with %d elements", stk_isempty(s->h), s->n);
		CHECK(stk_top(s->h) == (s->n ? s->a[s->n - 1] : NULL), "top");
	}
	h_nontrivial += q[0].n > 0;
	if (R(2)) {
		while (q[0].n) CHECK(stk_pop(q[0].h) == q[0].a[--q[0].n], "pop order");
		CHECK(!stk_pop(q[0].h) && !stk_top(q[0].h), "empty stack");
	}
	live = h_frees;
	i = q[0].n;
	stk_destroy(q[0].h);
	CHECK(h_frees - live == i + 1, "destroy of a stack with %d elements released %ld blocks", i, h_frees - live);
	for (i = 0; i < q[1].n; i++);
	while (q[1].n) CHECK(stk_pop(q[1].h) == q[1].a[--q[1].n], "another stack was changed");
	stk_destroy(q[1].h);
	free(q[0].a);
	free(q[1].a);
}

void run_case(void)
{
	Q q[3];
	int i, n;
	if (PROP("C07")) { stack_case(); return; }
	for (i = 0; i < 3; i++) q[i] = mk(lst_create());
	n = h_big ? 4000 : R(4) ? R(80) : R(600);
	for (i = 0; i < n; i++) list_op(&q[R(4) ? 0 : 1 + R(2)]);
	for (i = 0; i < 3; i++) { LOG("check %d\n", i); list_full(&q[i]); }
	h_nontrivial += q[0].n > 0;
	lst_destroy(q[1].h);
	for (i = 0; i < 10; i++) list_op(&q[R(2) * 2]);
	list_full(&q[0]);
	list_full(&q[2]);
	lst_destroy(q[0].h);
	list_full(&q[2]);
	lst_destroy(q[2].h);
	for (i = 0; i < 3; i++) free(q[i].a);
	if (R(50) == 0) _lst_shutdown();
}
