/* C21: requests whose answers come in time or too late, with events in between: every request gets its own answer or a timeout */
#include "c21_env.h"
#define NR 4
VP_INPUTS { uint8_t data[NR][2], ev[3]; int32_t err; };
#include "vp_main.h"
static int cur, u;
static int awaited(void) { return LATE >> cur & 1; }
static void vp_request(void) {
    CHECK(vp_cmd == MSG_TAG_READ && vp_gle(vp_pay) == (uint32_t)cur, "request");
    if(cur == 1 || cur == 2) { uint8_t e[9] = {0, 0, 0, 20, 0, 0, 0, 3, IN.ev[cur]}; msg(0x80000002u, e, 9); }
    if(FAIL == cur) msg(vp_cmd | 0x02000000u, &IN.err, 4); else msg(vp_cmd | 0x01000000u, IN.data[cur], 2);
}
int vp_clock(struct timespec *t) { t->tv_sec = 5000; t->tv_nsec = NS; return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { CHECK(0, "answers are not awaited forever"); return ETIMEDOUT; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    CHECK(c == &DS.msg_cond && m == &DS.msg_lock && vp_mlock_held, "waits for an answer");
    CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a valid time");
    CHECK((t->tv_sec - 5000) * 1000000000 + (t->tv_nsec - NS) == (int64_t)1500 * 1000000, "waits as long as it is told to");
    if(awaited()) return ETIMEDOUT;
    vp_munlock(m); /* waiting lets the others go on */
    vp_thread();
    vp_mlock(m);
    return 0;
}
static uint8_t seen[2]; static int nseen;
static void cb(dax_state *s, void *ud) { CHECK(ud == &u && nseen < 2, "event"); CHECK(dax_event_get_data(s, &seen[nseen], 1) == 1, "data"); nseen++; }
void vp_main(void) {
    int r; dax_id id = {20, 3}, got;
    vp_lib_init();
    ASSUME(IN.err < 0);
    DS.msgtimeout = 1500;
    pause_at = -1;
    CHECK(add_event(ds, id, &u, cb, NULL) == 0, "event");
    for(cur = 0; cur < NR; cur++) {
        uint8_t d[2] = {0x55, 0x55};
        if(cur && !DURING) vp_thread(); /* what is late arrives now */
        r = dax_read(ds, cur, 0, d, 2);
        UNLOCKED();
        if(awaited()) CHECK(r == ERR_TIMEOUT, "no answer in time is a timeout");
        else if(FAIL == cur) CHECK(r == IN.err, "the error that is the answer to the request");
        else CHECK(r == 0 && d[0] == IN.data[cur][0] && d[1] == IN.data[cur][1], "the data that is the answer to the request");
    }
    for(int i = 0; i < 2; i++) { got.id = got.index = 0; CHECK(dax_event_poll(ds, &got) == 0 && got.id == 3 && got.index == 20, "events are kept for later"); UNLOCKED(); }
    CHECK(dax_event_poll(ds, &got) != 0, "no more events");
    CHECK(nseen == 2 && seen[0] == IN.ev[1] && seen[1] == IN.ev[2], "events in their order with their data");
    COVER("end");
}
