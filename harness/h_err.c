/* C23: reports on standard error, exit status, log, flushing; each case in a child process */
#include "h.h"

static char out[2][8192];
static int outn[2];

static const char *const prog[] = { NULL, "prog", "/usr/bin/prog", "./a b", "x/", "dir/../p%s" };
static const char *const rout[] = { NULL, "routine", "r_2", "%d" };

static void expect(int which, const char *e)
{
	if (outn[which] != (int)strlen(e) || memcmp(out[which], e, outn[which]))
		FAIL("%s is %s, expected %s", which ? "standard error" : "standard output", esc(out[which], outn[which]), esc(e, -1));
}
void run_case(void)
{
	int kind = R(4), p = R(6), r = R(4), merged = R(2), logged = R(2), fmt = R(4), en = R(2) ? ENOENT : EACCES, i, s, nmsg = 1;
	int num = (int)R64();
	char str[200], msg[600], e[2000], pre[300], logname[64], lg[4000];
	int po[2], pe[2], pl[2] = { -1, -1 }, piped = R(2), dead = R(12) == 0, buffered = R(3) == 0;
	pid_t pid;
	const char *base = prog[p], *q, *n = R(2) ? "\n" : "";
	static const char *const fmts[] = { "plain message", "%s", "number %d of %s!", "100%% of %s: %d" };
	if (kind == 1 && r == 0) r = 1;
	for (i = 0; i < (int)R(150); i++) str[i] = "abc %/\\d"[R(8)];
	str[i] = 0;
	if (base && (q = strrchr(base, '/'))) base = q + 1;
	LOG("%s%skind %d program %s routine %s merged %d logged %d format %s string %s number %d\n", dead ? "full standard output, " : "", buffered ? "buffered standard error, " : "", kind, esc(prog[p], -1), esc(rout[r], -1), merged, logged, fmts[fmt], esc(str, -1), num);
	switch (fmt) {
	case 0: strcpy(msg, fmts[0]); break;
	case 1: snprintf(msg, sizeof msg, fmts[1], str); break;
	case 2: snprintf(msg, sizeof msg, fmts[2], num, str); break;
	case 3: snprintf(msg, sizeof msg, fmts[3], str, num); break;
	}
	snprintf(logname, sizeof logname, "log.%d", (int)getpid());
	unlink(logname);
	if (dead) merged = 0;	/* standard output cannot be flushed: errno is another one then */
	if (pipe(po) || pipe(pe) || pipe(pl)) return;
	fflush(NULL);
	pid = fork();
	if (pid == 0) {
		int w;
		struct rlimit rl = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rl);
		dup2(merged ? pe[1] : po[1], 1);
		dup2(pe[1], 2);
		if (dead) dup2(open("/dev/full", O_WRONLY), 1);
		close(po[0]); close(po[1]); close(pe[0]); close(pe[1]);
		signal(SIGABRT, SIG_DFL);
		alarm(20);
		if (buffered) { static char eb[8192]; setvbuf(stderr, eb, _IOFBF, sizeof eb); }
		if (logged) log_stream("ident", piped ? fdopen(pl[1], "w") : fopen(logname, "a"));
		log_option(LOG_OPTION_NO_FULL);
		err_set_program_name(prog[p]);
		if ((err_program_name() == NULL) != (base == NULL) || (base && strcmp(err_program_name(), base))) _exit(55);
		printf("before%s", n);
		errno = en;
#define CALL(f) do { switch (fmt) { case 0: f(rout[r], fmts[0]); break; case 1: f(rout[r], fmts[1], str); break; \
		case 2: f(rout[r], fmts[2], num, str); break; case 3: f(rout[r], fmts[3], str, num); break; } } while (0)
		w = 0;
		if (kind == 0) CALL(err_fatal);
		else if (kind == 1) CALL(err_fatal_errno);
		else if (kind == 2) CALL(err_internal);
		else { CALL(err_warning); w = 1; if (buffered) fflush(stderr); }
		if (!w) _exit(56);
		printf("after");
		fflush(stdout);
		_exit(42);
	}
	if (pid < 0) return;
	close(po[1]);
	close(pe[1]);
	close(pl[1]);
	for (i = 0; i < 2; i++) {
		int k, fd = i ? pe[0] : po[0];
		outn[i] = 0;
		while ((k = read(fd, out[i] + outn[i], sizeof out[i] - outn[i])) > 0 || (k < 0 && errno == EINTR)) if (k > 0) outn[i] += k;
		close(fd);
	}
	while (waitpid(pid, &s, 0) < 0 && errno == EINTR);
	/* the library may log before or after; the message must be there once */
	lg[0] = 0;
	if (logged) {
		FILE *f = piped ? fdopen(pl[0], "r") : fopen(logname, "r");
		i = f ? fread(lg, 1, sizeof lg - 1, f) : 0;
		lg[i] = 0;
		if (f) fclose(f);
		unlink(logname);
	}
	if (!logged || !piped) close(pl[0]);
	pre[0] = 0;
	if (base && rout[r]) snprintf(pre, sizeof pre, "%s (%s): ", base, rout[r]);
	else if (base) snprintf(pre, sizeof pre, "%s: ", base);
	else if (rout[r]) snprintf(pre, sizeof pre, "%s: ", rout[r]);
	switch (kind) {
	case 0: snprintf(e, sizeof e, "%s%s\n", pre, msg); break;
	case 1: snprintf(e, sizeof e, "%s%s %s: %s\n", pre, msg, rout[r], strerror(en)); break;
	case 2:
		if (!pre[0]) strcpy(pre, "");
		snprintf(e, sizeof e, "%sInternal error\n     %s\nAborting%s%s...\n", pre, msg, base ? " " : "", base ? base : "");
		break;
	case 3: snprintf(e, sizeof e, "%s%s\n", pre, msg); break;
	}
	CHECK(!WIFEXITED(s) || WEXITSTATUS(s) != 55, "err_program_name");
	CHECK(!WIFEXITED(s) || WEXITSTATUS(s) != 56, "the report returned");
	if (kind == 2) CHECK(WIFSIGNALED(s) && WTERMSIG(s) == SIGABRT, "internal error ended with status 0x%x", s);
	else if (kind == 3) CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 42, "warning ended with status 0x%x", s);
	else CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 1, "fatal error ended with status 0x%x", s);
	{
		char o[100], full[2300];
		snprintf(o, sizeof o, "before%s", n);
		if (merged) {
			snprintf(full, sizeof full, "%s%s%s", o, e, kind == 3 ? "after" : "");
			expect(1, full);
		} else {
			if (kind == 3) strcat(o, "after");
			if (!dead) expect(0, o);
			expect(1, e);
		}
	}
	if (logged) {
		char l[900];
		if (rout[r]) snprintf(l, sizeof l, "(%s) %s\n", rout[r], msg); else snprintf(l, sizeof l, "%s\n", msg);
		q = strstr(lg, l);
		CHECK(q, "the log is %s, expected %s in it", esc(lg, -1), esc(l, -1));
		while ((q = strstr(q + 1, l))) nmsg++;
		CHECK(nmsg == 1, "logged %d times", nmsg);
		if (kind == 1) {	/* the second entry: the system error */
			snprintf(l, sizeof l, "(%s) %s: %s\n", rout[r], rout[r], strerror(en));
			CHECK(strstr(lg, l), "the log is %s, expected %s in it", esc(lg, -1), esc(l, -1));
		}
	}
	h_nontrivial++;
}
