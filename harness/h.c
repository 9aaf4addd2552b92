#include "h.h"
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

uint64_t h_rs;
const char *h_prop;
int h_big;
unsigned long h_steps, h_nontrivial;
sigjmp_buf h_jb;
volatile int h_armed, h_kind, h_exitcode, h_err_calls;
volatile long h_live, h_fail_at, h_allocs, h_frees;
volatile int h_failed;                 /* an injected failure happened in this case */

/* shared, so that the history of a case that runs in a child process is seen here */
static char *h_log;
static size_t *h_len;
#define h_loglen (*h_len)
#define LOGCAP ((size_t)1 << 22)
static unsigned long h_case;
static int h_dumped;

static uint64_t splitmix(uint64_t *s)
{
	uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
ul R64(void) { return splitmix(&h_rs); }
ul R(ul n) { return n ? splitmix(&h_rs) % n : 0; }

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);

void LOG(const char *fmt, ...)
{
	va_list ap;
	char b[512];
	int n;
	va_start(ap, fmt);
	n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	if (h_loglen + n + 1 > LOGCAP) return;
	memcpy(h_log + h_loglen, b, n + 1);
	h_loglen += n;
}

static void dump(void)
{
	size_t from = 0;
	char b[128];
	int n;
	if (h_dumped++) return;
	n = snprintf(b, sizeof b, "\nFAILING-CASE %lu\nHISTORY\n", h_case);
	if (write(1, b, n) < 0) return;
	if (h_loglen > 24000) {
		if (write(1, h_log, 8000) < 0) return;
		if (write(1, "\n...\n", 5) < 0) return;
		from = h_loglen - 12000;
	}
	if (h_log && write(1, h_log + from, h_loglen - from) < 0) return;
	if (write(1, "END-HISTORY\n", 12) < 0) return;
}

void h_silent(void) { h_dumped = 1; }
void FAIL(const char *fmt, ...)
{
	va_list ap;
	char b[600];
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	dump();
	dprintf(1, "FAILED %s\n", b);
	_exit(7);
}

static void on_death(void) { dump(); }
static void on_sig(int s)
{
	dump();
	dprintf(1, "FAILED signal %d (%s)\n", s, s == SIGALRM ? "no result in time: the operation does not terminate" : "crash");
	_exit(7);
}

static void ended(int kind, const char *routine, const char *msg) __attribute__((noreturn));
static void ended(int kind, const char *routine, const char *msg)
{
	h_kind = kind;
	h_err_calls++;
	h_fail_at = 0;
	if (h_armed) siglongjmp(h_jb, 1);
	FAIL("unexpected %s report in %s: %s", kind == E_INTERNAL ? "internal error" : kind == E_FATAL ? "fatal error" : "abort/exit", routine ? routine : "?", msg);
}
#ifndef NO_ERR_WRAP
void __wrap_err_internal(const char *r, const char *f, ...) __attribute__((noreturn));
void __wrap_err_internal(const char *r, const char *f, ...) { ended(E_INTERNAL, r, f); }
void __wrap_err_fatal(const char *r, const char *f, ...) __attribute__((noreturn));
void __wrap_err_fatal(const char *r, const char *f, ...) { ended(E_FATAL, r, f); }
void __wrap_err_fatal_errno(const char *r, const char *f, ...) __attribute__((noreturn));
void __wrap_err_fatal_errno(const char *r, const char *f, ...) { ended(E_FATAL, r, f); }
void __wrap_abort(void) __attribute__((noreturn));
void __wrap_abort(void) { ended(E_ABORT, "abort", ""); }
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { h_exitcode = c; ended(E_EXIT, "exit", ""); }
#endif

static int failing(void)
{
	h_allocs++;
	if (h_fail_at > 0 && --h_fail_at == 0) { h_failed = 1; return 1; }
	return 0;
}
void *__wrap_malloc(size_t n) { void *p = failing() ? NULL : __real_malloc(n); if (p) h_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = failing() || (b && a > (size_t)-1 / b) ? NULL : __real_calloc(a, b); if (p) h_live++; return p; }
void *__wrap_realloc(void *o, size_t n)
{
	void *p = failing() ? NULL : __real_realloc(o, n);
	if (p && !o) h_live++;
	return p;
}
char *__wrap_strdup(const char *s) { char *p = failing() ? NULL : __real_strdup(s); if (p) h_live++; return p; }
void h_on_free(void *) __attribute__((weak));
void __wrap_free(void *p) { if (h_on_free) h_on_free(p); if (p) { h_live--; h_frees++; } __real_free(p); }

char *dup_exact(const void *p, size_t n)
{
	char *r = __real_malloc(n ? n : 1);
	memcpy(r, p, n);
	return r;
}

const char *esc(const char *s, long n)
{
	static char b[8][420];
	static int k;
	char *o = b[k++ & 7], *q = o;
	long i;
	if (!s) return "(null)";
	if (n < 0) n = strlen(s);
	*q++ = '"';
	for (i = 0; i < n && q - o < 400; i++) {
		unsigned char c = s[i];
		if (c >= 32 && c < 127 && c != '"' && c != '\\') *q++ = c;
		else q += sprintf(q, "\\x%02x", c);
	}
	*q++ = '"';
	*q = 0;
	return o;
}

const char *__asan_default_options(void)
{
	return "detect_leaks=0:allocator_may_return_null=1:handle_abort=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190";
}
const char *__ubsan_default_options(void) { return "halt_on_error=1:print_stacktrace=1:exitcode=98"; }

/* prog PROPERTY SEED SECONDS MAXCASES [CASE] */
int main(int argc, char **argv)
{
	uint64_t seed;
	double secs;
	long max;
	unsigned long nt;
	struct timeval t0, t;
	struct itimerval it;

	h_len = mmap(NULL, LOGCAP + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (h_len == MAP_FAILED) return 3;
	h_log = (char *)h_len + 64;
	h_prop = argv[1];
	seed = strtoull(argv[2], NULL, 0);
	secs = atof(argv[3]);
	max = atol(argv[4]);
	__sanitizer_set_death_callback(on_death);
	{	/* inherited settings must not matter */
		sigset_t none;
		int sg;
		sigemptyset(&none);
		sigprocmask(SIG_SETMASK, &none, NULL);
		for (sg = 1; sg < 32; sg++)
			if (sg != SIGSEGV && sg != SIGBUS && sg != SIGFPE && sg != SIGILL) signal(sg, SIG_DFL);
	}
	signal(SIGALRM, on_sig);
	signal(SIGABRT, on_sig);
	__sanitizer_set_report_fd((void *)1L);
	if (!freopen("/dev/null", "r", stdin)) return 3;
	gettimeofday(&t0, NULL);
	for (h_case = argc > 5 ? strtoul(argv[5], NULL, 0) : 0;; h_case++) {
		h_rs = seed * 0x2545F4914F6CDD1DULL + h_case * 0x9E3779B97F4A7C15ULL + 12345;
		splitmix(&h_rs);
		h_big = h_case % 16 == 5;
		h_loglen = 0;
		h_armed = 0;
		h_fail_at = 0;
		h_failed = 0;
		it.it_interval.tv_sec = it.it_interval.tv_usec = 0;
		it.it_value.tv_sec = 30;
		it.it_value.tv_usec = 0;
		setitimer(ITIMER_REAL, &it, NULL);
		nt = h_nontrivial;
		run_case();
		if (h_nontrivial > nt) h_nontrivial = nt + 1;
		h_steps++;
		if (argc > 5) break;
		if (max > 0 && (long)h_case + 1 >= max) break;
		gettimeofday(&t, NULL);
		if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 >= secs) break;
	}
	it.it_value.tv_sec = 0;
	setitimer(ITIMER_REAL, &it, NULL);
	if (h_loglen > 600) h_log[600] = 0;
	printf("\nCASES %lu NONTRIVIAL %lu\nSAMPLE %s\nOK\n", h_steps, h_nontrivial, h_log ? h_log : "");
	fflush(stdout);
	_exit(0);
}
