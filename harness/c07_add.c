/* C07: requests for a subscription on a 4-byte tag of type TY.
 * Without SIZE: every request that does not describe data of the tag is refused.
 * With SIZE and COUNT: these sizes, any offset and bit. */
#include "srv_ops.h"
#define N 4
VP_INPUTS { int32_t idx, byte; uint32_t count, etype, size; uint8_t bit, data[8], d[2], off, init[N]; };
#include "vp_main.h"
static int valid(int32_t byte, uint32_t size, uint32_t count, uint8_t bit) {
    if(byte < 0 || byte > N || size > N || byte + (int)size > N) return 0;
    if(count == 0) return 0;
#if REQBOOL
    return bit < 8 && count <= 64 && (bit + count - 1) / 8 + 1 == size;
#else
    return (uint64_t)count * TSZ == size;
#endif
}
void vp_main(void) {
    int32_t t, id;
    uint8_t z[4];
    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", TY, CNT, 0);
    tag_write(7, t, 0, IN.init, N);
    vp_evt_reset();
#ifndef SIZE
    ASSUME(IN.idx < 0 || IN.idx >= t);
    ASSUME(!(IN.idx == t && valid(IN.byte, IN.size, IN.count, IN.bit) && IN.etype >= EVENT_WRITE && IN.etype <= EVENT_DELETED));
    id = vp_evnt_add(7, IN.idx, IN.byte, IN.count, REQTYPE, IN.etype, IN.size, IN.bit, IN.data, DLEN);
    CHECK(id < 0, "a request that does not describe data of an existing tag is refused");
    COVER("refused");
    CHECK(vp_wr(7, t, 0, IN.init, 2) == 0 && vp_evt_total == 0, "a refused subscription is not notified");
#else
#ifdef BITC
#define BITV BITC
#else
#define BITV IN.bit
#endif
    id = vp_evnt_add(7, t, IN.byte, COUNT, REQTYPE, ETYPE, SIZE, BITV, IN.data, DLEN);
    CHECK((id > 0) == valid(IN.byte, SIZE, COUNT, BITV), "exactly the requests that describe data of the tag are accepted");
    if(id > 0) {
        ASSUME(IN.off <= N - 2);
        CHECK(vp_wr(7, t, IN.off, IN.d, 2) == 0, "written");
        if(IN.off + 2 <= IN.byte || IN.off >= IN.byte + SIZE) CHECK(vp_evt_total == 0, "writes elsewhere are not notified");
        if(ETYPE == EVENT_DELETED) CHECK(vp_evt_total == 0, "a write is not a deletion");
        CHECK(vp_evt_total <= 1, "at most one notification");
        COVER("accepted");
        tag_read(7, t, 0, z, N);
        for(int i = 0; i < N; i++) CHECK(z[i] == (i >= IN.off && i < IN.off + 2 ? IN.d[i - IN.off] : IN.init[i]), "subscriptions never change data");
    } else COVER("refused");
#endif
}
