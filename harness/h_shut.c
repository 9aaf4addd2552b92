/* C28: the library is started, used in all its parts, shut down and started again */
#include "h.h"

#define MAXP 64
static struct { int pid, alive; } kid[MAXP];
static int nkid;
static int who(int pid) { int i; for (i = nkid - 1; i >= 0; i--) if (kid[i].pid == pid) return i; return -1; }

pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	pid_t p = __real_fork();
	if (p > 0) { kid[nkid].pid = p; kid[nkid++].alive = 1; }
	return p;
}
int __real_kill(pid_t, int);
int __wrap_kill(pid_t pid, int sig)
{
	int i = who(pid);
	CHECK(i >= 0, "process %d, which is no child of the library, was sent signal %d", (int)pid, sig);
	CHECK(kid[i].alive, "process %d was sent signal %d after it had been waited for: the number may belong to another process", (int)pid, sig);
	return __real_kill(pid, sig);
}
pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
	pid_t r = __real_waitpid(pid, st, opt);
	int i = r > 0 ? who(r) : -1;
	if (i >= 0) kid[i].alive = 0;
	return r;
}
int __wrap_execvp(const char *f, char *const *av)
{
	if (*f == 't') _exit(0);
	for (;;) pause();       /* ends by a signal only */
}

static int hi;                                /* pipes of the library get descriptors from here on */
int __real_pipe(int *);
int __wrap_pipe(int *fds)
{
	int r = __real_pipe(fds), i, f;
	if (!r && hi) for (i = 0; i < 2; i++) if ((f = fcntl(fds[i], F_DUPFD, hi)) >= 0) { close(fds[i]); fds[i] = f; }
	return r;
}
static long now;
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (!now) return __real_gettimeofday(tv, tz);
	tv->tv_sec = now += 7;
	tv->tv_usec = 0;
	return 0;
}

void __real_free(void *);
static const char *const words[] = { "alpha", "beta", "", "gamma delta", "x", "total", "NT", "T" };
#define NW 8
static dbg_Type flag(int i) { return (dbg_Type)1 << i; }
static int cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static const void *key(const void *d) { return d; }
static const char *pr1(const void *d) { return ""; }

static void fresh(const char *after)
{
	int i;
	for (i = 0; i < NW; i++) {
		CHECK(!str_exists(words[i]), "after %s the string %s is known", after, esc(words[i], -1));
		CHECK(!prs_concrete(words[i]), "after %s the symbol %s has an expansion", after, esc(words[i], -1));
		if (strcmp(words[i], "total")) MUST(E_INTERNAL, tim_get_real(words[i]), "after %s the timer %s is known", after, esc(words[i], -1));
	}
	for (i = 0; i < 8; i++) {
		CHECK(!dbg_test(flag(i)), "after %s debugging flag %d is set", after, i);
		CHECK(!flg_test(flag(i)), "after %s flag %d is set", after, i);
	}
	CHECK(!dbg_test(MAA_MEMORY) && !dbg_test(MAA_TIME) && !dbg_test(MAA_PR) && !dbg_test(MAA_SL) && !dbg_test(MAA_SRC) && !dbg_test(MAA_PARSE), "after %s a debugging flag of the library is set", after);
}

void run_case(void)
{
	static char *text, *want;
	static size_t len;
	int cycles = 2 + R(2), c, i, j, n, mem, tim, fds[MAXP], nf, kids = R(6) == 0;
	const char *exp[NW];
	int has[NW], fd_pid[MAXP];
	char *sym[NW], *val[NW];
	lst_List lists[4];
	sl_List sls[4];
	long l0;
	FILE *err = stderr, *mine;
	char ver[64];

	snprintf(ver, sizeof ver, "Libmaa %d.%d.%d", maa_version_major(), maa_version_minor(), maa_version_teeny());
	CHECK(!strcmp(maa_version(), ver) && maa_version_major() == MAA_MAJOR && maa_version_minor() == MAA_MINOR && maa_version_teeny() == MAA_TEENY, "version %s", maa_version());
	now = 1000;
	nkid = 0;
	l0 = h_live;
	for (c = 0; c < cycles; c++) {
		LOG("maa_init\n");
		maa_init("prog/name");
		tim_get_real("total");
		fresh("maa_init");
		if (R(3) == 0) {
			static const struct { const char *name; dbg_Type f; } own[] = { { ".memory", MAA_MEMORY }, { ".time", MAA_TIME }, { ".pr", MAA_PR }, { ".sl", MAA_SL }, { ".src", MAA_SRC }, { ".parse", MAA_PARSE } };
			int k = R(6), q;
			char minus[16];
			LOG("dbg_set %s\n", own[k].name);
			dbg_set(own[k].name);
			for (q = 0; q < 6; q++) CHECK(!dbg_test(own[q].f) == (q != k), "after dbg_set %s the flag %s is %d", own[k].name, own[q].name, dbg_test(own[q].f));
			snprintf(minus, sizeof minus, "-%s", own[k].name);
			dbg_set(minus);
			CHECK(!dbg_test(own[k].f), "after dbg_set %s the flag is set", minus);
		}
		for (i = 0; i < NW; i++) has[i] = 0, sym[i] = dup_exact(words[i], strlen(words[i]) + 1), val[i] = dup_exact(words[NW - 1 - i], strlen(words[NW - 1 - i]) + 1);
		nf = mem = tim = 0;
		for (i = 0; i < 4; i++) lists[i] = NULL, sls[i] = NULL;
		n = R(h_big ? 60 : 16);
		for (j = 0; j < n; j++) {
			i = R(NW);
			switch (R(11)) {
			case 0: LOG("str_find %s\n", words[i]); str_find(sym[i]); break;
			case 1: LOG("str_unique %s\n", words[i]); str_unique(sym[i]); break;
			case 2: LOG("tim_start %s\n", words[i]); tim_start(sym[i]); break;
			case 3:
			{
				int e = R(2) ? NW - 1 - i : R(NW);
				char *a = dup_exact(words[i], strlen(words[i]) + 1), *b = dup_exact(words[e], strlen(words[e]) + 1);
				LOG("prs_register_concrete %s %s\n", words[i], words[e]);
				prs_register_concrete(a, b);
				if (!has[i]) { has[i] = 1; exp[i] = words[e]; }
				memset(a, 'Z', strlen(a));       /* the library keeps copies of its own */
				memset(b, 'Z', strlen(b));
				__real_free(a);
				__real_free(b);
				h_nontrivial++;
				break;
			}
			case 4: i = R(4); if (!lists[i]) lists[i] = lst_create(); LOG("lst_append\n"); lst_append(lists[i], sym[0]); break;
			case 5: i = R(4); if (!sls[i]) sls[i] = sl_create(cmp, key, pr1); LOG("sl_insert\n"); if (!sl_find(sls[i], sym[j % NW])) sl_insert(sls[i], sym[j % NW]); break;
			case 6: i = R(8); LOG("dbg_set_flag %d\n", i); dbg_set_flag(flag(i)); break;
			case 7: i = R(2); LOG("dbg_set %s\n", i ? ".memory" : ".time"); dbg_set(i ? ".memory" : ".time"); if (i) mem = 1; else tim = 1; break;
			case 8: if (!flg_test(flag(1))) { LOG("flg_register, flg_set\n"); flg_register(flag(1), "one"); flg_set("one"); } break;
			case 9:
				for (i = 0; i < NW; i++) {
					const char *e = prs_concrete(words[i]);
					CHECK(has[i] ? e && !strcmp(e, exp[i]) : !e, "expansion of %s is %s, expected %s", esc(words[i], -1), e ? esc(e, -1) : "NULL", has[i] ? esc(exp[i], -1) : "NULL");
				}
				break;
			default:
				if (kids && nf < 6) {
					int io[3] = { -1, -1, -1 }, fl = 1 + R(7), pid;
					int k, ends = R(2);
					static long max;
					if (!max) max = sysconf(_SC_OPEN_MAX);
					hi = R(3) ? 0 : R(2) ? 257 + R(100) : max - 6 + R(5);
					fl = ((fl & 1) ? PR_CREATE_STDIN : 0) | ((fl & 2) ? PR_CREATE_STDOUT : 0) | ((fl & 4) ? PR_CREATE_STDERR : 0);
					LOG("descriptors from %d on\n", hi);
					pid = pr_open(ends ? "true" : "sleep forever", fl, &io[0], &io[1], &io[2]);
					LOG("pr_open %s flags %x = child %d\n", ends ? "true" : "sleep", fl, nkid - 1);
					hi = 0;
					for (k = 0; k < 3; k++) if (io[k] >= 0) { fds[nf] = io[k]; fd_pid[nf++] = pid; }
					if (ends && R(2)) {      /* wait for it through one of its descriptors, the others stay */
						LOG("pr_close of its last descriptor\n");
						pr_close(fds[--nf]);
					}
					h_nontrivial++;
				}
			}
		}
		for (i = 0; i < 4; i++) {
			if (lists[i]) lst_destroy(lists[i]);
			if (sls[i]) sl_destroy(sls[i]);
		}
		mine = open_memstream(&want, &len);
		if (mem) str_print_stats(mine);
		fclose(mine);
		mine = open_memstream(&text, &len);
		stderr = mine;
		LOG("maa_shutdown\n");
		maa_shutdown();
		stderr = err;
		fclose(mine);
		CHECK(!strncmp(text, ver, strlen(ver)) == (mem || tim), "version line with .memory %d and .time %d: %s", mem, tim, esc(text, -1));
		CHECK(!strstr(text, "string pool") == !mem, "statistics of strings with .memory %d: %s", mem, esc(text, -1));
		CHECK(!strstr(text, "total  ") == !tim, "timers with .time %d: %s", tim, esc(text, -1));
		CHECK(!mem || strstr(text, want), "statistics of strings are %s, they were %s", esc(text, -1), esc(want, -1));
		if (tim) {
			const char *t = strstr(text, "total  ");
			double d = 0;
			sscanf(t, "total %lf", &d);
			CHECK(d > 0, "the timer total, which was stopped, shows no time: %s", esc(t, -1));
		}
		__real_free(want);
		CHECK(mem || tim || !len, "printed without debugging: %s", esc(text, -1));
		__real_free(text);
		for (i = 0; i < nkid; i++) {
			int st;
			CHECK(!kid[i].alive, "child %d was not waited for", i);
			CHECK(__real_waitpid(kid[i].pid, &st, WNOHANG) < 0, "child %d still runs", i);
		}
		for (i = 0; i < nf; i++) close(fds[i]);
		CHECK(h_live == l0, "%ld blocks of the library are not released by maa_shutdown", h_live - l0);
		for (i = 0; i < NW; i++) { memset(sym[i], 'Z', strlen(sym[i])); memset(val[i], 'Z', strlen(val[i])); __real_free(sym[i]); __real_free(val[i]); }
		if (R(2)) {
			fresh("maa_shutdown");
			LOG("maa_shutdown of what the questions made\n");
			maa_init("again");
			maa_shutdown();
		}
		if (c == 0 && R(4) == 0) { LOG("an empty session\n"); maa_init("x"); maa_shutdown(); CHECK(h_live == l0, "blocks left by an empty session"); }
	}
	now = 0;
	(void)fd_pid;
}
