/* C27: descriptors of children and of the parent, through real forks; the program is replaced by a report of the descriptors it would start with */
#include "h.h"
#include <sys/mman.h>
#include <sys/stat.h>

#define N 160
typedef struct { int open; ul dev, ino, rdev; int acc; } Fd;
typedef struct { int done, called, cbpid, pid, argc; char a0[40], a1[40]; Fd t[N]; } Rep;
static Rep *rep;
static int shm_self;

static void look(Fd *t)
{
	struct stat s;
	int i;
	for (i = 0; i < N; i++) {
		t[i].open = fstat(i, &s) == 0;
		t[i].dev = t[i].ino = t[i].rdev = 0;
		t[i].acc = -1;
		if (!t[i].open) continue;
		t[i].dev = s.st_dev;
		t[i].ino = s.st_ino;
		t[i].rdev = s.st_rdev;
		t[i].acc = fcntl(i, F_GETFL) & O_ACCMODE;
	}
}
static int same(const Fd *a, const Fd *b)
{
	if (!a->open || !b->open) return a->open == b->open;
	return a->dev == b->dev && a->ino == b->ino && a->rdev == b->rdev && a->acc == b->acc;
}
int __wrap_execvp(const char *f, char *const *av)
{
	int i;
	look(rep->t);
	rep->pid = getpid();
	for (i = 0; av[i]; i++);
	rep->argc = i;
	snprintf(rep->a0, sizeof rep->a0, "%s", f ? f : "(null)");
	snprintf(rep->a1, sizeof rep->a1, "%s", i > 1 ? av[1] : "");
	rep->done = 1;
	_exit(0);
}
static void callback(void) { rep->called++; rep->cbpid = getpid(); }

static struct { int fd, pid; } mine[64];
static int nmine;
static int own(int fd) { int i; for (i = 0; i < nmine; i++) if (mine[i].fd == fd) return i; return -1; }
static void drop(int fd) { int i = own(fd); if (i >= 0) mine[i] = mine[--nmine]; }

static void one(void)
{
	static const int U[3] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }, C[3] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR };
	Fd before[N], after[N], null;
	struct stat s;
	int flags = 0, fd[3] = { -7, -7, -7 }, in[3], i, k, pid, st, given[3] = { 0 }, r, w, p[2];
	int *ptr[3] = { &fd[0], &fd[1], &fd[2] };
	int how[3];
	int use_cb = R(3) == 0, via_open = !use_cb && R(2);
	for (k = 0; k < 3; k++) {
		how[k] = R(4);
		if (k == 2 && R(4) == 0) { how[k] = 0; flags |= PR_STDERR_TO_STDOUT; }
		if (how[k] == 1) flags |= C[k];
		if (how[k] == 2) {		/* a descriptor of ours or the other end of an earlier child */
			flags |= U[k];
			if (nmine && R(3) == 0) fd[k] = mine[R(nmine)].fd;
			else {
				if (pipe(p) < 0) _exit(0);
				i = R(2);
				fd[k] = p[i];
				if (R(2)) close(p[!i]);
			}
			for (i = 0; i < k; i++) if (given[i] && fd[i] == fd[k]) { flags &= ~U[k]; how[k] = 0; }
			given[k] = how[k] == 2;
		}
		if (how[k] == 3) {		/* /dev/null */
			flags |= U[k];
			if (R(2)) ptr[k] = NULL; else fd[k] = 0;
		}
		if (how[k] == 0 && R(2)) ptr[k] = NULL;
	}
	memcpy(in, fd, sizeof fd);
	look(before);
	rep->done = rep->called = 0;
	LOG("pr_open%s(\"prog one\", 0x%x, in %d, out %d, err %d), %d descriptors of earlier children\n", use_cb ? "2 with callback" : "", flags, ptr[0] ? fd[0] : -1, ptr[1] ? fd[1] : -1,
	    ptr[2] ? fd[2] : -1, nmine);
	pid = via_open ? pr_open("prog one", flags, ptr[0], ptr[1], ptr[2]) : pr_open2("prog one", use_cb ? callback : NULL, flags, ptr[0], ptr[1], ptr[2]);
	CHECK(pid > 0, "returned %d", pid);
	look(after);
	r = waitpid(pid, &st, 0);
	CHECK(r == pid, "the value returned is not the child");
	CHECK(rep->done, "the program was not started");
	CHECK(rep->pid == pid, "another process runs the program");
	CHECK(rep->argc == 2 && !strcmp(rep->a0, "prog") && !strcmp(rep->a1, "one"), "the child runs %s %s (%d)", rep->a0, rep->a1, rep->argc);
	CHECK(rep->called == use_cb, "the callback ran %d times", rep->called);
	CHECK(!use_cb || rep->cbpid == pid, "the callback ran in the wrong process");
	if (stat("/dev/null", &s)) _exit(0);
	null.open = 1; null.dev = s.st_dev; null.ino = s.st_ino; null.rdev = s.st_rdev;
	/* the child */
	for (k = 0; k < 3; k++) {
		Fd *c = &rep->t[k];
		null.acc = k ? O_WRONLY : O_RDONLY;
		switch (how[k]) {
		case 0:
			if (k == 2 && (flags & PR_STDERR_TO_STDOUT)) CHECK(same(c, &rep->t[1]), "standard error is not standard output");
			else CHECK(same(c, &before[k]), "descriptor %d is not inherited", k);
			break;
		case 1:
			w = fd[k];
			CHECK(w >= 3 && w < N && after[w].open && !before[w].open, "the descriptor handed out (%d) is not a new open one", w);
			CHECK(c->open && c->dev == after[w].dev && c->ino == after[w].ino, "descriptor %d of the child is not the other end of %d", k, w);
			CHECK(c->acc == (k ? O_WRONLY : O_RDONLY) && after[w].acc == (k ? O_RDONLY : O_WRONLY), "the ends of pipe %d are wrong", k);
			break;
		case 2: CHECK(same(c, &before[in[k]]), "descriptor %d is not the one given (%d)", k, in[k]); break;
		case 3: CHECK(same(c, &null), "descriptor %d is not the null device", k); break;
		}
	}
	for (i = 3; i < N; i++) {
		int want = before[i].open && own(i) < 0;
		for (k = 0; k < 3; k++) if (given[k] && in[k] == i) want = 0;
		CHECK(rep->t[i].open == want, "descriptor %d is %s in the child%s", i, rep->t[i].open ? "open" : "closed", own(i) >= 0 ? ", it belongs to an earlier child" : "");
		if (want) CHECK(same(&rep->t[i], &before[i]), "descriptor %d of the child is another one", i);
	}
	/* the parent */
	for (i = 0; i < N; i++) {
		int gone = 0, neu = 0;
		for (k = 0; k < 3; k++) { gone |= given[k] && in[k] == i; neu |= how[k] == 1 && fd[k] == i; }
		if (neu) continue;
		if (gone) CHECK(!after[i].open, "the parent keeps descriptor %d, which it gave away", i);
		else CHECK(same(&before[i], &after[i]), "descriptor %d of the parent changed", i);
	}
	for (k = 0; k < 3; k++) {
		CHECK(how[k] == 1 || fd[k] == in[k], "the variable for descriptor %d changed", k);
		if (given[k]) drop(in[k]);
	}
	for (k = 0; k < 3; k++) if (how[k] == 1) { mine[nmine].fd = fd[k]; mine[nmine++].pid = pid; }
}
static void history(void)
{
	int n = 1 + R(h_big ? 12 : 5), i;
	for (i = R(4); i > 0; i--) if (dup(R(3)) < 0) _exit(0);
	while (n--) {
		one();
		while (nmine && R(3) == 0) {
			int k = R(nmine), fd = mine[k].fd, pid = mine[k].pid, r;
			LOG("close %d\n", fd);
			if (R(2)) { r = pr_close_nowait(fd); CHECK(r == pid, "pr_close_nowait gives %d, not %d", r, pid); }
			else { r = pr_close(fd); CHECK(r == 0, "pr_close gives %d for a child already waited for", r); }
			CHECK(fcntl(fd, F_GETFD) < 0, "descriptor %d is still open", fd);
			drop(fd);
		}
		if (nmine > 40) break;
	}
	for (i = 0; i < nmine; i++) {
		int r = pr_close_nowait(mine[i].fd);
		CHECK(r == mine[i].pid, "descriptor %d belongs to %d, not to %d", mine[i].fd, r, mine[i].pid);
	}
}
void run_case(void)
{
	pid_t p;
	int s;
	if (!rep) {
		rep = mmap(NULL, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (rep == MAP_FAILED) exit(3);
	}
	(void)shm_self;
	fflush(NULL);
	p = fork();
	if (!p) {
		if (R(12) == 0) {
			static const int bad[] = { PR_USE_STDIN | PR_CREATE_STDIN, PR_USE_STDOUT | PR_CREATE_STDOUT, PR_USE_STDERR | PR_CREATE_STDERR, PR_STDERR_TO_STDOUT | PR_USE_STDERR,
				PR_STDERR_TO_STDOUT | PR_CREATE_STDERR, 0x200, 0x8, 0x80 };
			int a = 0, b = 0, c = 0, f = bad[R(8)];
			LOG("flags 0x%x\n", f);
			MUST(E_INTERNAL, pr_open("prog one", f, &a, &b, &c), "flags 0x%x are accepted", f);
		} else history();
		_exit(0);
	}
	if (p < 0) return;
	while (waitpid(p, &s, 0) < 0 && errno == EINTR);
	if (WIFEXITED(s) && WEXITSTATUS(s) == 0) { h_nontrivial++; return; }
	h_silent();
	FAIL("child ended with status 0x%x", s);
}
