/* Forced into every translation unit of /repo in both the encoding and the
 * replays: routes operating-system calls to the environment stubs. */
#ifndef VP_ENV_H
#define VP_ENV_H
#define _GNU_SOURCE 1
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
ssize_t vp_write(int fd, const void *b, size_t n);
ssize_t vp_read(int fd, void *b, size_t n);
int vp_close(int fd);
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int vp_socket(int a, int b, int c);
int vp_bind(int fd, const struct sockaddr *a, socklen_t l);
int vp_listen(int fd, int n);
int vp_accept(int fd, struct sockaddr *a, socklen_t *l);
int vp_connect(int fd, const struct sockaddr *a, socklen_t l);
int vp_unlink(const char *p);
int vp_kill(pid_t p, int s);
pid_t vp_getpid(void);
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l);
int vp_getsockname(int fd, struct sockaddr *a, socklen_t *l);
int vp_gettimeofday(struct timeval *t);
#ifndef VP_ENV_IMPL
#define write(a,b,c) vp_write(a,b,c)
#define read(a,b,c) vp_read(a,b,c)
#define close(a) vp_close(a)
#define select(a,b,c,d,e) vp_select(a,b,c,d,e)
#define socket(a,b,c) vp_socket(a,b,c)
#define bind(a,b,c) vp_bind(a,b,c)
#define listen(a,b) vp_listen(a,b)
#define accept(a,b,c) vp_accept(a,b,c)
#define connect(a,b,c) vp_connect(a,b,c)
#define unlink(a) vp_unlink(a)
#define kill(a,b) vp_kill(a,b)
#define getpid() vp_getpid()
#define getpeername(a,b,c) vp_getpeername(a,b,c)
#define getsockname(a,b,c) vp_getsockname(a,b,c)
#define gettimeofday(a,b) vp_gettimeofday(a)
#endif
#endif
