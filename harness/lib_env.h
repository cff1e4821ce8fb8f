/* Forced into every translation unit of the client library: threads are driven by the harness. */
#ifndef LIB_ENV_H
#define LIB_ENV_H
#include "vp_env.h"
#include <pthread.h>
#include <time.h>
int vp_mlock(pthread_mutex_t *m);
int vp_munlock(pthread_mutex_t *m);
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t);
int vp_clock(struct timespec *t);
#define pthread_mutex_lock(m) vp_mlock(m)
#define pthread_mutex_unlock(m) vp_munlock(m)
#define pthread_cond_wait(c, m) vp_cond_wait(c, m)
#define pthread_cond_timedwait(c, m, t) vp_cond_timedwait(c, m, t)
#define pthread_cond_signal(c) (0)
#define pthread_cond_broadcast(c) (0)
#define pthread_create(a, b, c, d) (-1)
#define pthread_detach(a) (0)
#define pthread_barrier_init(a, b, c) (0)
#define pthread_barrier_wait(a) (0)
#define clock_gettime(a, t) vp_clock(t)
#define setsockopt(a, b, c, d, e) (0)
#define inet_pton(a, b, c) (1)
#endif
