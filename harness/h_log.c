/* C26: random histories of opening, closing, logging, options and the clock against a model of what every log must contain.
   write() is interrupted and accepts parts; the clock, the host name and the system log are replaced. */
#define _XOPEN_SOURCE 700
#define _DEFAULT_SOURCE
#include "h.h"
#include <ftw.h>
#include <time.h>
#include <sys/stat.h>

extern void openlog(const char *, int, int), closelog(void);
#define NF 40
#define CAP 200000
static struct { char name[300]; char *txt; int len; } file[NF];
static int nf, curfile;                 /* curfile: the log file open, -1 none */
static char orig[200], ident[64], sident[64], dir[64];
static FILE *str;
static int strfile, strstd;             /* stream: file index; 1 stdout, 2 stderr */
static int sysopen, nofull, inlog;
static time_t now = 1000000000;
static int facility = 8;
static struct { int fac, n, openfac, opt; char text[5000], ident[64]; } sl;
static const char host[] = "alpha-7.some.example.org";
static int hard;

time_t __real_time(time_t *);
ssize_t __real_write(int, const void *, size_t);
time_t __wrap_time(time_t *t) { if (t) *t = now; return now; }
int __wrap_gethostname(char *b, size_t n) { size_t l = strlen(host); memcpy(b, host, l < n ? l + 1 : n); return 0; }
void __wrap_openlog(const char *id, int opt, int fac) { sysopen += 1; snprintf(sl.ident, sizeof sl.ident, "%s", id); sl.openfac = fac; sl.opt = opt; }
void __wrap_closelog(void) { sysopen -= 1; }
void __wrap_vsyslog(int fac, const char *f, va_list ap) { sl.n++; sl.fac = fac; vsnprintf(sl.text, sizeof sl.text, f, ap); }
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	if (inlog && fd > 2 && n > 0) {
		switch (R(6)) {
		case 0: errno = EINTR; return -1;
		case 1: case 2: n = 1 + R(n); break;
		}
	}
	return __real_write(fd, b, n);
}
static int rm1(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; return remove(p); }
static int model(const char *name)
{
	int i;
	for (i = 0; i < nf; i++) if (!strcmp(file[i].name, name)) return i;
	if (nf >= NF) return -1;
	snprintf(file[nf].name, sizeof file[nf].name, "%s", name);
	file[nf].len = 0;
	if (!file[nf].txt) file[nf].txt = malloc(CAP);
	return nf++;
}
static void dated(char *b, size_t n, const char *o) { strftime(b, n, o, localtime(&now)); }
static int put(int i, const char *t)
{
	int l = strlen(t);
	if (file[i].len + l >= CAP) return 0;
	memcpy(file[i].txt + file[i].len, t, l);
	file[i].len += l;
	return 1;
}
static void compare(void)
{
	static char b[CAP];
	int i, k;
	for (i = 0; i < nf; i++) {
		int fd = open(file[i].name, O_RDONLY), n = 0;
		if (fd < 0) FAIL("log file %s does not exist", file[i].name);
		while ((k = read(fd, b + n, sizeof b - n)) > 0) n += k;
		close(fd);
		if (n != file[i].len || memcmp(b, file[i].txt, n)) {
			for (k = 0; k < n && k < file[i].len && b[k] == file[i].txt[k]; k++);
			LOG("%s: %d bytes, expected %d, first difference at %d\n", file[i].name, n, file[i].len, k);
			FAIL("log %s holds ...%s, expected ...%s", file[i].name, esc(b + k, n - k > 100 ? 100 : n - k), esc(file[i].txt + k, file[i].len - k > 100 ? 100 : file[i].len - k));
		}
	}
}
static void v_error(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
static void v_info(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
static void message(void)
{
	static char s[5000], msg[5000], line[9000], pre[400];
	static const char *const rout[] = { NULL, "routine", "a%sb", "" };
	int kind = R(4), i, n = R(12) ? (int)R(60) : R(3) ? (int)R(4000) : 4093, num = (int)R64(), saved = -1, to = -1;
	const char *r = rout[R(4)];
	int lvl, sn = sl.n;
	for (i = 0; i < n; i++) s[i] = "abc %\\d.\t"[R(9)];
	s[n] = 0;
	if (n == 4093) { kind &= 1; snprintf(msg, sizeof msg, "%s:%s", s, "!"); }
	else snprintf(msg, sizeof msg, "%d%% %s\n", num, s);
	lvl = kind < 2 ? 3 : 6;
	if (kind >= 2) r = NULL;
	nofull ? (pre[0] = 0) : snprintf(pre, sizeof pre, "%.24s %s %s[%ld]: ", ctime(&now), "alpha-7", ident, (long)getpid());
	if (r) snprintf(line, sizeof line, "%s(%s) %s\n", pre, r, msg);
	else snprintf(line, sizeof line, "%s%s\n", pre, msg);
	LOG("message %d routine %s length %d at %ld\n", kind, r ? r : "-", (int)strlen(msg), (long)now);
	if (curfile >= 0) {
		char b[400];
		dated(b, sizeof b, orig);
		if ((curfile = model(b)) < 0) return;
		put(curfile, line);
	}
	if (str) put(strfile, strstd ? msg : line);
	if (strstd) {
		fflush(strstd == 1 ? stdout : stderr);
		saved = dup(strstd);
		to = open(file[strfile].name, O_WRONLY | O_APPEND);
		dup2(to, strstd);
		close(to);
	}
	inlog = 1;
	switch (kind) {
	case 0: if (n == 4093) log_error(r, "%s:%s", s, "!"); else log_error(r, "%d%% %s\n", num, s); break;
	case 1: if (n == 4093) v_error(r, "%s:%s", s, "!"); else v_error(r, "%d%% %s\n", num, s); break;
	case 2: log_info("%d%% %s\n", num, s); break;
	case 3: v_info("%d%% %s\n", num, s); break;
	}
	inlog = 0;
	if (saved >= 0) {
		dup2(saved, strstd);
		close(saved);
	}
	if (sysopen) {
		CHECK(sl.n == sn + 1, "the message went to the system log %d times", sl.n - sn);
		CHECK(sl.fac == lvl, "level %d in the system log, expected %d", sl.fac, lvl);
		CHECK(!strcmp(sl.text, msg), "system log got %s", esc(sl.text, -1));
	} else CHECK(sl.n == sn, "the message went to the system log, which is not open");
	h_nontrivial++;
	compare();
}
static int fds(void)
{
	int i, n = 0;
	for (i = 0; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++;
	return n;
}
void run_case(void)
{
	int i, nops = 3 + R(h_big ? 60 : 20), fd0, in0, mysys = 0, nstr = 0;
	char b[400], id[32];
	static const char *const names[] = { "plain", "h%H", "d%j/%H%M.log", "a/b/c/%S", "%%x%Y/", "x.%M" };
	static const struct { const char *n; int v; } fac[] = { { "user", 8 }, { "daemon", 24 }, { "local3", 152 }, { "mail", 16 }, { "local7", 184 }, { "auth", 32 } };
	nf = 0; curfile = -1; str = NULL; strstd = 0; nofull = 0; facility = 8;
	snprintf(dir, sizeof dir, "L%d", (int)getpid());
	nftw(dir, rm1, 16, FTW_DEPTH | FTW_PHYS);
	mkdir(dir, 0755);
	log_option(LOG_OPTION_FULL);
	log_set_facility("user");
	in0 = R(4) == 0;
	if (in0) close(0);	/* logs may get descriptor 0 */
	fd0 = fds();
	for (i = 0; i < nops; i++) {
		h_steps++;
		snprintf(id, sizeof id, "id%d%s", (int)R(5), R(5) ? "" : "-with %s in it");
		switch (R(16)) {
		case 0: case 1: {
			const char *t = names[R(6)];
			char o[200];
			snprintf(o, sizeof o, "%s/%s%s", dir, t, t[strlen(t) - 1] == '/' ? "f" : "");
			LOG("log_file(%s, %s) at %ld\n", id, o, (long)now);
			if (curfile >= 0) { MUST(E_INTERNAL, log_file(id, o), "opening a second log file is not refused"); break; }
			strcpy(orig, o);
			strcpy(ident, id);
			dated(b, sizeof b, orig);
			if ((curfile = model(b)) < 0) goto end;
			{
				char *x = dup_exact(id, strlen(id) + 1), *y = dup_exact(o, strlen(o) + 1);
				log_file(x, y);
				memset(x, 'X', strlen(x)); memset(y, 'Y', strlen(y));
				free(x); free(y);
			}
			compare();
			break;
		}
		case 2: LOG("log_file(NULL, NULL)\n"); log_file(NULL, NULL); curfile = -1; break;
		case 3: case 4: {
			int k = R(6);
			FILE *f;
			LOG("log_stream(%s, kind %d)\n", id, k);
			if (str) { MUST(E_INTERNAL, log_stream(id, stdout), "opening a second stream is not refused"); break; }
			snprintf(b, sizeof b, "%s/stream%d", dir, nstr++);
			if ((strfile = model(b)) < 0) goto end;
			f = fopen(b, "w");
			if (!f) goto end;
			strstd = k == 0 ? 1 : k == 1 ? 2 : 0;
			if (k == 2 || k == 3) { fputs("0123456789 text that is there", f); put(strfile, "0123456789 text that is there"); }
			if (k != 4) { fclose(f); f = k == 0 ? stdout : k == 1 ? stderr : fopen(b, k == 2 ? "a" : k == 3 ? "r+" : "w"); }
			if (k == 3) fseek(f, R(5), SEEK_SET);
			str = f;
			strcpy(ident, id);
			log_stream(id, f);
			break;
		}
		case 5: LOG("log_stream(NULL, NULL)\n"); log_stream(NULL, NULL); str = NULL; strstd = 0; break;
		case 6: {
			LOG("log_syslog(%s)\n", id);
			if (mysys) { MUST(E_INTERNAL, log_syslog(id), "opening the system log twice is not refused"); break; }
			log_syslog(id);
			mysys = 1;
			CHECK(!strcmp(sl.ident, id) && sl.openfac == facility && (sl.opt & 1), "system log opened as %s facility %d options %d", sl.ident, sl.openfac, sl.opt);
			break;
		}
		case 7: LOG("log_syslog(NULL)\n"); log_syslog(NULL); mysys = 0; break;
		case 8: if (!R(3)) { LOG("log_close()\n"); log_close(); mysys = 0; str = NULL; strstd = 0; curfile = -1; } break;
		case 9: nofull = R(2); LOG("log_option(%d)\n", nofull); log_option(nofull ? LOG_OPTION_NO_FULL : LOG_OPTION_FULL); break;
		case 10: now += R(2) ? R(120) : R(7200); break;
		case 11: { int k = R(6); LOG("log_set_facility(%s)\n", fac[k].n); log_set_facility(fac[k].n); facility = fac[k].v;
			CHECK(log_get_facility() && !strcmp(log_get_facility(), fac[k].n), "log_get_facility() is %s", log_get_facility());
			if (!R(4)) { MUST(E_FATAL, log_set_facility("nonsense"), "an unknown facility is accepted"); }
			break; }
		default: message();
		}
		CHECK(sysopen == mysys, "the system log is %s", sysopen ? "still open" : "not open");
	}
end:
	LOG("log_close() and one more message\n");
	log_close();
	sysopen = sysopen ? 100 : 0;
	CHECK(!sysopen, "the system log is still open");
	curfile = -1; str = NULL; strstd = 0;
	message();
	i = fds();
	if (in0 && open("/dev/null", O_RDONLY) != 0) FAIL("descriptor 0 is still in use");
	CHECK(i == fd0, "%d descriptors are open after closing, %d before", i, fd0);
	nftw(dir, rm1, 16, FTW_DEPTH | FTW_PHYS);
}
