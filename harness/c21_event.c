/* C21: events that are added, deleted and that arrive in some order: each calls its own callback once, the oldest are lost when too many wait */
#include "c21_env.h"
#define MAXE 12
VP_INPUTS { uint8_t ev[MAXE], which[MAXE]; int32_t id[5], idx[5]; };
#include "vp_main.h"
static int32_t id[5], idx[5];
static int u[5], freed[5], dels[5], live[5], u_calls, last_u; static uint8_t last_d; static int nextid;
static void cb(dax_state *s, void *ud) { uint8_t b[4] = {1, 2, 3, 4}; u_calls++; last_u = (int *)ud - u; CHECK(dax_event_get_data(s, b, 1) == 1, "data"); last_d = b[0]; CHECK(b[1] == 2, "no more data than there is room for"); }
static void fcb(void *ud) { freed[(int *)ud - u]++; }
static void vp_request(void) {
    if(vp_cmd == MSG_EVNT_ADD) vp_reply(&id[nextid], 4);
    else vp_reply(vp_pay, 8);
}
int vp_clock(struct timespec *t) { t->tv_sec = 5000; t->tv_nsec = 7; return 0; }
int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { CHECK(0, "there is an event"); return ETIMEDOUT; }
int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return ETIMEDOUT; }
static uint8_t q[MAXE][2]; static int qn;
static void arrive(int k) { /* event which[k] with data ev[k] */
    uint8_t w = IN.which[k]; int32_t i = idx[w], d = id[w];
    uint8_t e[9] = {i >> 24, i >> 16, i >> 8, i, d >> 24, d >> 16, d >> 8, d, IN.ev[k]};
    w_in = w_out = 0;
    msg(0x80000002u, e, 9); vp_thread();
    if(qn == EVENT_QUEUE_SIZE) { for(int n = 1; n < qn; n++) { q[n - 1][0] = q[n][0]; q[n - 1][1] = q[n][1]; } qn--; }
    q[qn][0] = w; q[qn++][1] = IN.ev[k];
}
static void poll_one(int wait) {
    dax_id got = {-5, -5}; int r, before = u_calls, w = q[0][0];
    r = wait ? dax_event_wait(ds, 0, &got) : dax_event_poll(ds, &got); UNLOCKED();
    if(!qn) { CHECK(r == ERR_NOTFOUND && u_calls == before, "no event, no callback"); return; }
    if(live[w]) { CHECK(r == 0 && u_calls == before + 1, "the callback is called once"); CHECK(last_u == w && last_d == q[0][1], "it is the one of the event, with its data"); CHECK(got.id == id[w] && got.index == idx[w], "the id of the event"); }
    else CHECK(r != 0 && u_calls == before, "events that do not exist any more call nothing");
    for(int n = 1; n < qn; n++) { q[n - 1][0] = q[n][0]; q[n - 1][1] = q[n][1]; }
    qn--;
    { uint8_t b; CHECK(dax_event_get_data(ds, &b, 1) < 0, "no data outside of the callback"); }
}
static void add(int k) {
    tag_handle h; dax_id i;
    memset(&h, 0, sizeof h); h.index = idx[k]; h.type = DAX_INT; h.count = 1; h.size = 2; nextid = k;
    CHECK(dax_event_add(ds, &h, EVENT_WRITE, NULL, &i, cb, &u[k], fcb) == 0, "added"); UNLOCKED();
    live[k] = 1;
}
static void del(int k) {
    dax_id i = {idx[k], id[k]};
    CHECK(dax_event_del(ds, i) == 0, "deleted"); UNLOCKED();
    live[k] = 0;
    CHECK(freed[k] == ++dels[k], "the user data is given back");
}
void vp_main(void) {
    static const char script[] = SCRIPT; int k = 0;
    vp_lib_init(); pause_at = -1;
#ifdef IDS
    { static const int32_t c[5][2] = {{20, 3}, {20, 4}, {21, 3}, {276, 3}, {20, 259}}; for(int i = 0; i < 5; i++) { idx[i] = c[i][0]; id[i] = c[i][1]; } }
#else
    for(int i = 0; i < 5; i++) { idx[i] = IN.idx[i]; id[i] = IN.id[i]; }
#endif
    for(int i = 0; i < 5; i++) for(int j = 0; j < i; j++) ASSUME(id[i] != id[j] || idx[i] != idx[j]);
    for(int i = 0; i < MAXE; i++) ASSUME(IN.which[i] < 5);
    for(int i = 0; script[i]; i++) {
        if(script[i] == 'a') add(script[++i] - '0');
        else if(script[i] == 'd') del(script[++i] - '0');
        else if(script[i] == 'e') arrive(k++);
        else if(script[i] == 'p') poll_one(0);
        else if(script[i] == 'w') poll_one(1);
    }
    for(int i = 0; i < 5; i++) CHECK(freed[i] == dels[i], "user data is given back once, when its event is deleted");
    COVER("end");
}
