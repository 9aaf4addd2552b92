/* C25: timers under simulated clocks */
#include "h.h"
#include <math.h>
#include <time.h>

static int sim;
static struct timeval now;
static struct rusage self, kids;
int __real_gettimeofday(struct timeval *, void *);
int __real_getrusage(int, struct rusage *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!sim) return __real_gettimeofday(t, z); *t = now; return 0; }
int __wrap_getrusage(int who, struct rusage *r)
{
	if (!sim) return __real_getrusage(who, r);
	memset(r, 0x5a, sizeof *r);
	*r = who == RUSAGE_SELF ? self : kids;
	return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	if (!sim) return __real_clock_gettime(c, t);
	t->tv_sec = now.tv_sec;
	t->tv_nsec = now.tv_usec * 1000;
	return 0;
}
static void adv(struct timeval *t)
{
	long us = R(4) == 0 ? 0 : R(3) == 0 ? (long)R(3000000000UL) : (long)R(2000000);
	us += t->tv_usec;
	t->tv_sec += us / 1000000;
	t->tv_usec = us % 1000000;
	if (R(10) == 0) t->tv_usec = R(1000000);     /* clocks may be set back within a second */
}
static void tick(void)
{
	adv(&now);
	adv(&self.ru_utime); adv(&self.ru_stime); adv(&kids.ru_utime); adv(&kids.ru_stime);
}
static double d(struct timeval a, struct timeval b) { return (a.tv_sec - b.tv_sec) + (a.tv_usec - b.tv_usec) / 1e6; }
#define NT 6
static const char *const names[NT + 1] = { "a", "b", "", "a ", "total time", "x/y", "never" };
typedef struct { int on; struct timeval r; struct rusage s, k; double real, user, sys; } TM;
static TM m[NT];
static int eq(double a, double b) { return fabs(a - b) <= 1e-7 * (1 + fabs(b) * 1e-6); }

void run_case(void)
{
	int i, j, n = h_big ? 200 : R(40);
	char *nm[NT];
	memset(m, 0, sizeof m);
	memset(&self, 0, sizeof self);
	memset(&kids, 0, sizeof kids);
	now.tv_sec = R(2) ? R(2000000000) : 0;
	now.tv_usec = R(1000000);
	for (i = 0; i < NT; i++) nm[i] = dup_exact(names[i], strlen(names[i]) + 1);
	sim = 1;
	for (i = 0; i < n; i++) {
		if (R(3)) tick();
		j = R(NT);
		switch (R(6)) {
		case 0: case 1:
			LOG("start %s at %ld.%06ld\n", names[j], now.tv_sec, now.tv_usec);
			tim_start(nm[j]);
			m[j].on = 1;
			m[j].r = now;
			m[j].s = self;
			m[j].k = kids;
			break;
		case 2: case 3:
			LOG("stop %s at %ld.%06ld\n", names[j], now.tv_sec, now.tv_usec);
			if (!m[j].on) { MUST(E_INTERNAL, tim_stop(nm[j]), "stopping an unknown timer"); break; }
			tim_stop(nm[j]);
			m[j].real = d(now, m[j].r);
			m[j].user = d(self.ru_utime, m[j].s.ru_utime) + d(kids.ru_utime, m[j].k.ru_utime);
			m[j].sys = d(self.ru_stime, m[j].s.ru_stime) + d(kids.ru_stime, m[j].k.ru_stime);
			h_nontrivial++;
			break;
		case 4:
			LOG("reset %s\n", names[j]);
			if (!m[j].on) { MUST(E_INTERNAL, tim_reset(nm[j]), "resetting an unknown timer"); break; }
			tim_reset(nm[j]);
			m[j].real = m[j].user = m[j].sys = 0;
			break;
		case 5:
			LOG("shutdown\n");
			if (R(4)) break;
			_tim_shutdown();
			memset(m, 0, sizeof m);
			break;
		}
		for (j = 0; j < NT; j++) {
			if (!m[j].on) {
				if (R(8) == 0) {
					MUST(E_INTERNAL, tim_get_real(nm[j]), "reading an unknown timer");
					MUST(E_INTERNAL, tim_get_user(nm[j]), "reading an unknown timer");
					MUST(E_INTERNAL, tim_get_system(nm[j]), "reading an unknown timer");
				}
				continue;
			}
			CHECK(eq(tim_get_real(nm[j]), m[j].real), "timer %s: real %.9f, expected %.9f", names[j], tim_get_real(nm[j]), m[j].real);
			CHECK(eq(tim_get_user(nm[j]), m[j].user), "timer %s: user %.9f, expected %.9f", names[j], tim_get_user(nm[j]), m[j].user);
			CHECK(eq(tim_get_system(nm[j]), m[j].sys), "timer %s: system %.9f, expected %.9f", names[j], tim_get_system(nm[j]), m[j].sys);
		}
	}
	_tim_shutdown();
	sim = 0;
	for (i = 0; i < NT; i++) free(nm[i]);
}
