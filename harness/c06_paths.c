/* C06: WRITE and CHANGE notifications and the data they carry, whatever kind of request does the writing.
 * PATH: 0 write, 1 masked write, 2 atomic operation, 3 group write, 4 mapping from another tag */
#include "srv_ops.h"
#define N 6
#define E0 2
#define EN 3
VP_INPUTS { uint8_t init[N], d[2], m[2]; int32_t off; };
#include "vp_main.h"
void vp_main(void) {
    int32_t t, id;
    uint8_t raw[N], old[N], msg[48];
    int lo, n = 2, x = 0, hit;

    vp_server_start();
    vp_register(7, "m");
    vp_register(8, "n");
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    for(int i = 0; i < N; i++) raw[i] = IN.init[i];
    tag_write(7, t, 0, raw, N);
#if PATH == 4
    int32_t s = tag_add(8, "S", DAX_BYTE, 4, 0);
    vp_handle(msg, s, 1, 0, 2, 2, DAX_BYTE); vp_handle(msg + 21, t, MOFF, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(8, MSG_MAP_ADD, msg, 42);
    CHECK(VP_IS_RESPONSE(MSG_MAP_ADD), "a mapping can be added");
#endif
#if PATH == 3
    uint32_t g;
    msg[0] = 1; msg[1] = 0;
    vp_handle(msg + 2, t, MOFF, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(8, MSG_GRP_ADD, msg, 23);
    CHECK(VP_IS_RESPONSE(MSG_GRP_ADD), "a group can be added");
    g = vp_get32(vp_rsp.data);
#endif
    tag_read(7, t, 0, raw, N);
    id = vp_evnt_add(7, t, E0, EN, DAX_BYTE, ETYPE, EN, 0, NULL, 0);
    CHECK(id > 0 && id < VP_NEVT, "the event can be added");
#ifdef SEND
    CHECK(vp_evnt_opt(7, t, id, EVENT_OPT_SEND_DATA) == 0, "the subscriber can set options");
#endif
    for(int i = 0; i < N; i++) old[i] = raw[i];
    vp_evt_reset();
    lo = IN.off;
#if PATH == 0
    ASSUME(IN.off >= 0 && IN.off <= N - 2);
    CHECK(vp_wr(8, t, IN.off, IN.d, 2) == 0, "written");
    for(int i = 0; i < 2; i++) raw[lo + i] = IN.d[i];
#elif PATH == 1
    ASSUME(IN.off >= 0 && IN.off <= N - 2);
    CHECK(vp_mwr(8, t, IN.off, IN.d, IN.m, 2) == 0, "written");
    for(int i = 0; i < 2; i++) raw[lo + i] = (IN.d[i] & IN.m[i]) | (raw[lo + i] & ~IN.m[i]);
#elif PATH == 2
    ASSUME(IN.off >= 0 && IN.off <= N - 2);
    CHECK(vp_atomic(8, t, IN.off, 2, DAX_BYTE, 0, ATOMIC_OP_XOR, IN.d, 2) == 0, "done");
    for(int i = 0; i < 2; i++) raw[lo + i] ^= IN.d[i];
#elif PATH == 3
    ASSUME(lo == MOFF);
    vp_put32(msg, g); msg[4] = IN.d[0]; msg[5] = IN.d[1];
    VP_RSP_RESET();
    vp_send(8, MSG_GRP_WRITE, msg, 6);
    CHECK(VP_IS_RESPONSE(MSG_GRP_WRITE), "written");
    for(int i = 0; i < 2; i++) raw[MOFF + i] = IN.d[i];
#elif PATH == 4
    ASSUME(lo == MOFF);
    CHECK(vp_wr(8, s, 1, IN.d, 2) == 0, "written");
    for(int i = 0; i < 2; i++) raw[MOFF + i] = IN.d[i];
#endif
    hit = lo < E0 + EN && lo + n > E0;
    for(int i = E0; i < E0 + EN; i++) x |= raw[i] != old[i];
    if(ETYPE == EVENT_WRITE) x = hit;
    CHECK(vp_evt_count[id] == x && vp_evt_total == x, "notified exactly when it should be");
    if(x) {
        CHECK(vp_evt.fd == 7, "the subscriber is notified");
        CHECK(vp_evt.type == (0x80000000u | ETYPE), "the kind of event is given");
        CHECK(vp_evt.data[0] == 0 && vp_evt.data[1] == 0 && vp_evt.data[2] == 0 && vp_evt.data[3] == t, "the tag is given");
#ifdef SEND
        CHECK(vp_evt.size == 8 + EN && vp_evt.len == 16 + EN, "the data is sent along");
        for(int i = 0; i < EN; i++) CHECK(vp_evt.data[8 + i] == raw[E0 + i], "the data sent is the new data");
#else
        CHECK(vp_evt.size == 8 && vp_evt.len == 16, "no data is sent");
#endif
        COVER("notified");
    }
#if PATH < 3 || ETYPE == EVENT_CHANGE
    else COVER("not notified");
#endif
}
