/* C21: an event and an answer however the bytes arrive: in pieces of up to PIECE bytes, with a pause or a signal at any byte */
#include "c21_env.h"
VP_INPUTS { uint8_t data[5], ev[3]; };
#include "vp_main.h"
static uint8_t seen[3]; static int nseen, u, gone;
static void cb(dax_state *s, void *ud) { CHECK(ud == &u, "event"); CHECK(dax_event_get_data(s, seen, 3) == 3, "data"); nseen++; }
static void vp_request(void) {
    uint8_t e[11] = {0, 0, 0, 20, 0, 0, 0, 3, IN.ev[0], IN.ev[1], IN.ev[2]};
    msg(0x80000002u, e, 11);
    msg(vp_cmd | 0x01000000u, IN.data, 5);
}
int vp_clock(struct timespec *t) { t->tv_sec = 5000; t->tv_nsec = 7; return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return ETIMEDOUT; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if(gone++) return ETIMEDOUT;
    vp_munlock(m); vp_thread(); vp_mlock(m);
    return 0;
}
void vp_main(void) {
    dax_id id = {20, 3}, got;
    vp_lib_init();
    piece = PIECE; pause_how = HOW;
    CHECK(add_event(ds, id, &u, cb, NULL) == 0, "event");
    for(int at = FIRST; at < FIRST + 8; at++) {
        uint8_t d[5];
        pause_at = at; w_in = w_out = 0; paused = 0; nseen = 0; gone = 0;
        CHECK(dax_read(ds, 1, 0, d, 5) == 0, "the answer arrives"); UNLOCKED();
        for(int i = 0; i < 5; i++) CHECK(d[i] == IN.data[i], "the answer is as it was sent");
        CHECK(dax_event_poll(ds, &got) == 0 && got.id == 3 && got.index == 20 && nseen == 1, "the event arrives"); UNLOCKED();
        for(int i = 0; i < 3; i++) CHECK(seen[i] == IN.ev[i], "the event is as it was sent");
        CHECK(dax_event_poll(ds, &got) != 0, "nothing else arrives");
    }
    COVER("end");
}
