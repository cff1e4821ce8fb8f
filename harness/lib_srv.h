/* What the client library talks to in the harnesses: requests arrive in vp_request(), which may answer with vp_reply(). */
#include "vp.h"
#include "vp_env.h"
#include "lib_env.h"
#include <libdax.h>
#include <libcommon.h>
static dax_state DS, *const ds = &DS;
static event_db vp_events[1];
static unsigned vp_nreq; /* requests so far */
static unsigned vp_cmd, vp_len;
static uint8_t *vp_pay;
static int vp_lock_held, vp_mlock_held, vp_elock_held, vp_answered;
static int *vp_lk(pthread_mutex_t *m) { return m == &DS.lock ? &vp_lock_held : m == &DS.msg_lock ? &vp_mlock_held : &vp_elock_held; }
int vp_mlock(pthread_mutex_t *m) { CHECK(*vp_lk(m) == 0, "the client does not lock itself out"); *vp_lk(m) = 1; return 0; }
int vp_munlock(pthread_mutex_t *m) { CHECK(*vp_lk(m) == 1, "only a lock that is held is released"); *vp_lk(m) = 0; return 0; }
#define UNLOCKED() CHECK(!vp_lock_held && !vp_mlock_held && !vp_elock_held, "no lock is left behind")
#ifndef VP_OWN_COND
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return ETIMEDOUT; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return ETIMEDOUT; }
int vp_clock(struct timespec *t) { t->tv_sec = 1000; t->tv_nsec = 0; return 0; }
#endif
void dax_log(uint32_t topic, const char *format, ...) { }
char *dax_get_attr(dax_state *s, char *name) { return "8"; }
int opt_get_msgtimeout(dax_state *s) { return 1000; }
int opt_lua_init_func(dax_state *s) { return 0; }
static void vp_request(void);
static void vp_reply_t(uint32_t type, const void *p, unsigned n) {
    dax_message *m = malloc(sizeof(dax_message));
    CHECK(DS.last_msg == NULL, "one answer at a time");
    m->msg_type = type; m->size = n;
    for(unsigned i = 0; i < n; i++) m->data[i] = ((const uint8_t *)p)[i];
    DS.last_msg = m;
    vp_answered++;
}
static void vp_reply(const void *p, unsigned n) { vp_reply_t(vp_cmd | 0x01000000u, p, n); }
static void vp_error(int32_t e) { vp_reply_t(vp_cmd | 0x02000000u, &e, 4); }
static unsigned vp_gbe(const uint8_t *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint32_t vp_gle(const uint8_t *p) { return (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
ssize_t vp_write(int fd, const void *b, size_t n) {
    const uint8_t *p = b;
    CHECK(fd == DS.sfd, "requests go to the server");
    CHECK(n >= 8 && n <= DAX_MSGMAX && vp_gbe(p) == n, "a request says how long it is");
    vp_nreq++;
    vp_cmd = vp_gbe(p + 4); vp_len = n - 8; vp_pay = (uint8_t *)p + 8;
    vp_request();
    vp_pay = NULL;
    return n;
}
int vp_close(int fd) { return 0; }
int vp_socket(int a, int b, int c) { return -1; }
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { return -1; }
#ifndef VP_OWN_READ
ssize_t vp_read(int fd, void *b, size_t n) { return 0; }
#endif
static void vp_lib_init(void) {
    DS.sfd = 5; DS.msgtimeout = 1000; DS.cache_limit = 8;
    DS.events = malloc(sizeof(event_db)); DS.event_size = 1;
    DS.emsg_queue = malloc(sizeof(dax_message *) * EVENT_QUEUE_SIZE); DS.emsg_queue_size = EVENT_QUEUE_SIZE;
}
