/* common part of the bounded cross-checks: random histories against a reference model */
#ifndef H_H
#define H_H
#include "maaP.h"
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <errno.h>
#include <fcntl.h>

typedef unsigned long ul;
extern uint64_t h_rs;
extern const char *h_prop;
extern int h_big;                      /* this case may be large */
extern unsigned long h_steps, h_nontrivial;

ul R(ul n);                            /* 0 .. n-1 */
ul R64(void);
void LOG(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void FAIL(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
#define PROP(p) (!strcmp(h_prop, p))

enum { E_NONE, E_INTERNAL, E_FATAL, E_ABORT, E_EXIT };
extern sigjmp_buf h_jb;
extern volatile int h_armed, h_kind, h_exitcode;
extern volatile int h_err_calls;
/* evaluates the statement, gives the kind of error report that ended it (E_NONE: it returned) */
#define ERR(stmt) ({ int h_k = E_NONE; h_armed = 1; if (!sigsetjmp(h_jb, 0)) { stmt; } else h_k = h_kind; h_armed = 0; h_k; })
#define MUST(kind, stmt, ...) do { int h_e = ERR(stmt); if (h_e != (kind)) { LOG("error kind %d, expected %d\n", h_e, (int)(kind)); FAIL(__VA_ARGS__); } } while (0)

/* allocation control: only allocations made by the library */
extern volatile long h_live;           /* blocks allocated by the library and not released */
extern volatile long h_fail_at;        /* the n-th allocation from now fails (0: never) */
extern volatile long h_allocs, h_frees;
extern volatile int h_failed;
void h_silent(void);                   /* the failing case was already printed (by a child) */

void run_case(void);                   /* one random case for property h_prop */

/* exactly sized heap copy, so that any over-read is caught */
char *dup_exact(const void *p, size_t n);
const char *esc(const char *s, long n);
#endif
