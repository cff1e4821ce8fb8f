/* C21: waiting for an answer and for an event takes as long as was asked for, whatever time it is */
#include "c21_env.h"
VP_INPUTS { uint32_t now, ns; };
#include "vp_main.h"
static int waits;
static void vp_request(void) { }
int vp_clock(struct timespec *t) { t->tv_sec = IN.now; t->tv_nsec = IN.ns; return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { CHECK(0, "not forever"); return ETIMEDOUT; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    int64_t ns = (int64_t)IN.ns + MS % 1000 * 1000000, s = (int64_t)IN.now + MS / 1000;
    CHECK(waits ? c == &DS.event_cond && m == &DS.event_lock && vp_elock_held : c == &DS.msg_cond && m == &DS.msg_lock && vp_mlock_held, "waits for the right thing");
    if(ns >= 1000000000) { ns -= 1000000000; s++; }
    CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a valid time");
    CHECK(t->tv_sec == s && t->tv_nsec == ns, "waits as long as it is told to");
    waits++;
    return ETIMEDOUT;
}
void vp_main(void) {
    uint8_t d; dax_id id;
    vp_lib_init();
    ASSUME(IN.ns < 1000000000 && IN.now < 2000000000);
    DS.msgtimeout = MS;
    CHECK(dax_read(ds, 1, 0, &d, 1) == ERR_TIMEOUT && waits == 1, "no answer is a timeout"); UNLOCKED();
    CHECK(dax_event_wait(ds, MS, &id) == ERR_TIMEOUT && waits == 2, "no event is a timeout"); UNLOCKED();
    COVER("end");
}
