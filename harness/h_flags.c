/* C19: debug and program flags against two tables of booleans */
#include "h.h"

static ul bitval(int g, int b) { return ((ul)g << 30) | (1UL << b); }
static char name[2][4][30][8];
static char isset[2][4][30], reg[2][4][30];

static ul weird(void)
{
	/* not exactly one low-order bit */
	ul f;
	for (;;) {
		f = (R(2) ? R64() : R64() & R64() & R64()) & 0xffffffffUL;
		if (R(4) == 0) f &= 0xc0000000UL;
		if (__builtin_popcountl(f & 0x3fffffffUL) != 1) return f;
	}
}
static void check_all(void)
{
	int k, g, b;
	for (k = 0; k < 2; k++)
		for (g = 0; g < 4; g++)
			for (b = 0; b < 30; b++) {
				int t = k ? flg_test(bitval(g, b)) : dbg_test(bitval(g, b));
				CHECK(!!t == isset[k][g][b], "%s flag %lx tests %d, expected %d", k ? "program" : "debug", bitval(g, b), t, isset[k][g][b]);
			}
}
static void do_set(int k, const char *s)
{
	char *x = dup_exact(s, strlen(s) + 1);
	if (k) flg_set(x); else dbg_set(x);
	free(x);
}
void run_case(void)
{
	int i, k, g, b, n = h_big ? 500 : 5 + R(40), any[2] = { 0, 0 };
	char buf[16];
	fclose(stderr);
	stderr = fopen("/dev/null", "w");
	memset(isset, 0, sizeof isset);
	memset(reg, 0, sizeof reg);
	check_all();
	for (i = 0; i < n; i++) {
		k = R(2);
		g = R(4);
		b = R(30);
		switch (R(10)) {
		case 0: case 1: case 2:
			if (reg[k][g][b]) break;
			snprintf(name[k][g][b], 8, "%c%d%c", "Fab"[R(3)], g * 30 + b, k ? 'p' : 'd');
			LOG("%s register %lx %s\n", k ? "flg" : "dbg", bitval(g, b), name[k][g][b]);
			if (!k && g == 3) {
				MUST(E_FATAL, dbg_register(bitval(g, b), name[k][g][b]), "reserved debug flag %lx accepted", bitval(g, b));
				if (R(2)) break;
				_dbg_register(bitval(g, b), name[k][g][b]);
			} else if (k) flg_register(bitval(g, b), name[k][g][b]);
			else dbg_register(bitval(g, b), name[k][g][b]);
			reg[k][g][b] = 1;
			any[k] = 1;
			break;
		case 3: {
			ul f = weird();
			LOG("%s register bad %lx\n", k ? "flg" : "dbg", f);
			MUST(E_FATAL, k ? flg_register(f, "bad") : dbg_register(f, "bad"), "malformed flag %lx accepted", f);
			break;
		}
		case 4: case 5: {
			int sign = R(3), t;
			for (t = 0; t < 60 && !reg[k][g][b]; t++) { g = R(4); b = R(30); }
			if (!reg[k][g][b]) break;
			snprintf(buf, sizeof buf, "%s%s", sign == 0 ? "" : sign == 1 ? "+" : "-", name[k][g][b]);
			LOG("%s set %s\n", k ? "flg" : "dbg", buf);
			do_set(k, buf);
			isset[k][g][b] = sign != 2;
			h_nontrivial++;
			break;
		}
		case 6:
			if (k) break;
			LOG("dbg set_flag %lx\n", bitval(g, b));
			dbg_set_flag(bitval(g, b));
			isset[0][g][b] = 1;
			break;
		case 7:
			if (k) break;
			LOG("dbg unset_flag %lx\n", bitval(g, b));
			dbg_unset_flag(bitval(g, b));
			isset[0][g][b] = 0;
			break;
		case 8: {
			int on = R(2);
			if (!any[k]) { MUST(E_FATAL, do_set(k, on ? "all" : "none"), "no names registered"); break; }
			LOG("%s set %s\n", k ? "flg" : "dbg", on ? "all" : "none");
			do_set(k, on ? "all" : "none");
			memset(isset[k], on, sizeof isset[k]);
			break;
		}
		case 9: {
			static const char *const bad[] = { "zzz", "", "+", "-", "-zzz", "+zzz", "ALL", "+all", "-none", "none2", "--x" };
			const char *s = bad[R(11)];
			LOG("%s set unknown %s\n", k ? "flg" : "dbg", s);
			MUST(E_FATAL, do_set(k, s), "unknown name %s accepted", s);
			break;
		}
		}
		check_all();
		if (k && any[1] && reg[k][g][b]) CHECK(!strcmp(flg_name(bitval(g, b)), name[k][g][b]), "flg_name");
	}
	LOG("destroy\n");
	dbg_destroy();
	memset(isset[0], 0, sizeof isset[0]);
	check_all();
	flg_destroy();
	memset(isset[1], 0, sizeof isset[1]);
	check_all();
}
