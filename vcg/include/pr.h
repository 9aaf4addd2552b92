/* read before pr.c by the verifier: the descriptor-set macros of the C library become calls, so that they are used by contract */
#include <sys/types.h>
#include <sys/select.h>
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
void vcg_fd_zero(fd_set *);
void vcg_fd_set(int, fd_set *);
void vcg_fd_clr(int, fd_set *);
int vcg_fd_isset(int, const fd_set *);
#define FD_ZERO(s) vcg_fd_zero(s)
#define FD_SET(f, s) vcg_fd_set(f, s)
#define FD_CLR(f, s) vcg_fd_clr(f, s)
#define FD_ISSET(f, s) vcg_fd_isset(f, s)
