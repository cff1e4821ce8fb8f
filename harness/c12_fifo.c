/* C12: a queue tag returns what was written, in the order it was written.
 * SCRIPT is a list of +n (n writes) and -n (n reads); then K requests of which each may be a read or a write. */
#include "srv_ops.h"
#ifndef K
#define K 0
#endif
VP_INPUTS { uint8_t d[NW + K][4], n[4]; uint8_t w[K + 1]; };
#include "vp_main.h"
static int32_t q, nb[2], ev;
static int head, tail;
static void wr(void) {
    vp_evt_reset();
    CHECK(vp_wr(7, q, 0, IN.d[tail], QSZ) == 0, "a queue can be written");
    tail++;
    CHECK(vp_evt_count[ev] == 1 && vp_evt_total == 1 && vp_evt_fd[ev] == 8 && vp_evt_tag[ev] == q && vp_evt_kind[ev] == EVENT_WRITE, "a write to a queue is notified");
}
static void rd(void) {
    uint8_t x[4];
    int32_t r;
    vp_evt_reset();
    r = vp_rd(8, q, 0, x, QSZ);
    CHECK((r == 0) == (head < tail), "a queue can be read exactly when it is not empty");
    if(head < tail) {
        for(int i = 0; i < QSZ; i++) CHECK(x[i] == IN.d[head][i], "data leave a queue in the order they were written");
        head++;
    }
    CHECK(vp_evt_total == 0, "reading a queue is not a write");
}
static const int script[] = {SCRIPT};
void vp_main(void) {
    uint8_t x[4];
    vp_server_start();
    vp_register(7, "m"); vp_register(8, "n");
    nb[0] = tag_add(7, "A", DAX_BYTE, 4, 0);
    q = tag_add(7, "Q", QTYPE | DAX_QUEUE, QCNT, 0);
    nb[1] = tag_add(7, "B", DAX_BYTE, 4, 0);
    CHECK(q > 0, "a queue can be added");
    for(int i = 0; i < 2; i++) CHECK(vp_wr(7, nb[i], 0, IN.n, 4) == 0, "written");
    ev = vp_evnt_add(8, q, 0, QCNT, QTYPE, EVENT_WRITE, QSZ, 0, NULL, 0);
    CHECK(ev > 0 && ev < VP_NEVT, "the writes of a queue can be subscribed to");
    for(int s = 0; s < (int)(sizeof(script) / sizeof(script[0])); s++) {
        if(script[s] > 0) for(int i = 0; i < script[s]; i++) wr();
        else for(int i = 0; i < -script[s]; i++) rd();
    }
    for(int k = 0; k < K; k++) if(IN.w[k]) wr(); else rd();
    for(int i = 0; i < 2; i++) { tag_read(7, nb[i], 0, x, 4); for(int j = 0; j < 4; j++) CHECK(x[j] == IN.n[j], "other tags are not touched"); }
    COVER("end");
}
