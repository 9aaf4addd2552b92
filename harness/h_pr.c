/* C24: filters and waiting with real children, under split and interrupted system calls */
#include "h.h"
#include <sys/select.h>

static int on, p_eintr, p_part;
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
pid_t __real_waitpid(pid_t, int *, int);
static int hit(int p) { return on && (int)R(100) < p; }
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	if (on && hit(p_eintr)) { errno = EINTR; return -1; }
	if (on && n > 1 && hit(p_part)) n = 1 + R(R(2) ? n : n < 20 ? n : 20);
	return __real_read(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (on && fd > 2 && hit(p_eintr)) { errno = EINTR; return -1; }
	if (on && fd > 2 && n > 1 && hit(p_part)) n = 1 + R(R(2) ? n : n < 20 ? n : 20);
	return __real_write(fd, b, n);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	if (on && hit(p_eintr)) { errno = EINTR; return -1; }
	return __real_select(n, r, w, e, t);
}
pid_t __wrap_waitpid(pid_t p, int *s, int f)
{
	if (on && hit(p_eintr)) { errno = EINTR; return -1; }
	return __real_waitpid(p, s, f);
}

static void filter(void)
{
	static const struct { const char *cmd; int how; } cm[] = {
		{ "cat", 0 }, { "sh -c 'cat; printf tail'", 1 }, { "sh -c 'printf head; cat'", 2 }, { "sh -c 'cat >/dev/null'", 3 }, { "tr a-y b-z", 4 },
		{ "sh -c 'cat; exit 3'", 0 } };
	int c = R(6), len = h_big ? R(300000) : R(4) ? R(300) : R(2) ? 0 : R(9000), i, n, max, r, e, fits;
	char *b = malloc(len + 1), *x, *o, *exp = malloc(len + 10);
	volatile int rr = -1;
	for (i = 0; i < len; i++) b[i] = cm[c].how == 4 ? 'a' + R(26) : R(256);
	n = 0;
	if (cm[c].how == 2) { memcpy(exp, "head", 4); n = 4; }
	if (cm[c].how != 3) { memcpy(exp + n, b, len); n += len; }
	if (cm[c].how == 1) { memcpy(exp + n, "tail", 4); n += 4; }
	if (cm[c].how == 4) for (i = 0; i < n; i++) if (exp[i] < 'z') exp[i]++;
	max = R(3) == 0 ? n : R(2) ? n + 1 + R(100) : n > 0 ? R(n) : 0;
	fits = max >= n;
	x = dup_exact(b, len);
	o = dup_exact(exp, 0);
	o = realloc(o, max ? max : 1);
	memset(o, 0x77, max);
	LOG("filter \"%s\", %d bytes, expecting %d, room for %d, interruptions %d%%, splits %d%%\n", cm[c].cmd, len, n, max, p_eintr, p_part);
	on = 1;
	e = ERR(rr = pr_filter(cm[c].cmd, x, len, o, max));
	on = 0;
	r = rr;
	CHECK(!memcmp(x, b, len), "the input buffer was modified");
	if (fits) {
		CHECK(e == E_NONE, "failed although everything fits");
		CHECK(r == n, "returned %d, expected %d", r, n);
		CHECK(!memcmp(o, exp, n), "wrong bytes");
		for (i = n; i < max; i++) CHECK(o[i] == 0x77, "wrote behind the output");
	} else CHECK(e == E_FATAL, "%d bytes of output in a buffer of %d: %s", n, max, e == E_NONE ? "no report" : "wrong report");
}
static void waiting(void)
{
	static const int sig[] = { SIGKILL, SIGTERM, SIGHUP, SIGUSR1, SIGPIPE, SIGINT };
	int k = R(3), v = k == 0 ? (int)R(2) * R(256) : R(2) ? sig[R(6)] : 1 + (int)R(31), exp, r, fd = -1, how = R(3), in = -1;
	char cmd[60];
	struct rlimit rl = { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	sigset_t none;
	sigemptyset(&none);
	sigprocmask(SIG_SETMASK, &none, NULL);
	for (r = 1; r < 32; r++) signal(r, SIG_DFL);		/* inherited settings must not matter */
	if (v == SIGCHLD || v == SIGURG || v == SIGWINCH || v == SIGCONT || v == SIGSTOP || v == SIGTSTP || v == SIGTTIN || v == SIGTTOU) v = SIGKILL;
	if (k == 0) { snprintf(cmd, sizeof cmd, "sh -c 'exit %d'", v); exp = v; }
	else if (k == 1) { snprintf(cmd, sizeof cmd, "sh -c 'kill -%d $$; exit 9'", v); exp = v == SIGPIPE ? 0 : 128 + v; }
	else { snprintf(cmd, sizeof cmd, "/nonexistent/program"); exp = 127; }
	LOG("wait for %s, how %d, interruptions %d%%\n", cmd, how, p_eintr);
	on = 1;
	if (how == 0) r = pr_spawn(cmd);
	else {
		int pid = pr_open(cmd, how == 1 ? 0 : PR_CREATE_STDOUT | PR_CREATE_STDIN, &in, &fd, NULL);
		CHECK(pid > 0, "pr_open returned %d", pid);
		if (how == 1) {
			r = pr_wait(pid);
			if (R(2)) { int q = pr_wait(pid); CHECK(q == 0, "waiting again gives %d", q); }
		} else {
			if (R(2)) {
				CHECK(pr_close_nowait(in) == pid, "pr_close_nowait");
				r = pr_close(fd);
				MUST(E_INTERNAL, pr_close(fd), "closing twice");
			} else {
				r = pr_close(in);
				exp = exp;
				CHECK(pr_close(fd) == 0, "the second descriptor of a child already waited for");
			}
		}
	}
	on = 0;
	CHECK(r == exp, "status %d, expected %d", r, exp);
}
static void bad(void)
{
	LOG("closing a descriptor that is not ours\n");
	MUST(E_INTERNAL, pr_close(R(10)), "pr_close without pr_open");
	pr_wait(pr_open("true", 0, NULL, NULL, NULL));
	MUST(E_INTERNAL, pr_close(R(10)), "pr_close of a descriptor not opened by pr_open");
	MUST(E_INTERNAL, pr_open("true", PR_USE_STDIN | PR_CREATE_STDIN, NULL, NULL, NULL), "contradicting flags");
}
void run_case(void)
{
	pid_t p;
	int s;
	fflush(NULL);
	p = fork();
	if (!p) {
		setpgid(0, 0);
		p_eintr = R(2) ? 0 : R(60);
		p_part = R(3) ? R(100) : 0;
		switch (R(6)) {
		case 0: case 1: waiting(); break;
		case 2: if (R(4) == 0) { bad(); break; }	/* fall through */
		default: filter();
		}
		_exit(0);
	}
	if (p < 0) return;
	while (__real_waitpid(p, &s, 0) < 0 && errno == EINTR);
	kill(-p, SIGKILL);
	if (WIFEXITED(s) && WEXITSTATUS(s) == 0) { h_nontrivial++; return; }
	h_silent();
	FAIL("child ended with status 0x%x", s);
}
