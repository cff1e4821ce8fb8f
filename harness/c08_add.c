/* C08: every request for a mapping that reaches outside of its tags is refused.
 * With CASE: deletion of one of the tags. */
#include "srv_ops.h"
VP_INPUTS { uint8_t msg[42], d[2]; int32_t si, di; uint32_t sb, db, sc, dc, ss, ds; uint8_t sbit, dbit; };
#include "vp_main.h"
void vp_main(void) {
    int32_t s, d, id, v;
    uint8_t m[42], x[4];
    vp_server_start();
    s = tag_add(7, "S", DAX_BYTE, 3, 0);
    d = tag_add(7, "D", DAX_BYTE, 4, 0);
#if CASE == 0
    int ok = IN.si == s && IN.di == d && (uint64_t)IN.sb + IN.ss <= 3 && (uint64_t)IN.db + IN.ds <= 4 && IN.ss <= IN.ds && (TY != DAX_BOOL || (IN.sbit < 8 && IN.dbit < 8
        && IN.sc >= 1 && (uint64_t)IN.sbit + IN.sc <= (uint64_t)IN.ss * 8 && (uint64_t)IN.dbit + IN.sc <= (uint64_t)IN.ds * 8));
    ASSUME(IN.si < 0 || IN.si >= s); ASSUME(IN.di < 0 || IN.di >= d);
    ASSUME(!(IN.si == d || IN.di == s));
    ASSUME(!ok);
    vp_handle(m, IN.si, IN.sb, IN.sbit, IN.sc, IN.ss, TY);
    vp_handle(m + 21, IN.di, IN.db, IN.dbit, IN.dc, IN.ds, TY);
    VP_RSP_RESET();
    vp_send(7, MSG_MAP_ADD, m, 42);
    CHECK(vp_result(MSG_MAP_ADD) < 0, "a mapping that is not inside its tags is refused");
    COVER("refused");
#else
    vp_handle(m, s, 1, 0, 2, 2, DAX_BYTE);
    vp_handle(m + 21, d, 1, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(7, MSG_MAP_ADD, m, 42);
    id = vp_result(MSG_MAP_ADD);
    CHECK(id >= 0, "mapping added");
    vp_put32(x, s);
    { uint8_t g[8]; vp_put32(g, s); vp_put32(g + 4, id);
      VP_RSP_RESET();
      vp_send(7, MSG_MAP_GET, g, 8);
      CHECK(VP_IS_RESPONSE(MSG_MAP_GET) && vp_rsp.size >= 42, "a mapping can be read back");
      for(int i = 0; i < 42 && i < VP_CAP; i++) CHECK(vp_rsp.data[i] == m[i], "a mapping reads back as it was added"); }
#if CASE == 1
    CHECK(vp_tag_del(7, d) == 0, "the destination is deleted");
    v = vp_tag_add(7, "V", DAX_BYTE, 4, 0);
    CHECK(v >= 0 && vp_wr(7, s, 1, IN.d, 2) == 0 && vp_wr(7, s, 1, IN.d, 2) == 0, "the source can still be written");
    tag_read(7, v, 0, x, 4);
    for(int i = 0; i < 4; i++) CHECK(x[i] == 0, "other tags are not affected");
    tag_read(7, s, 0, x, 3);
    CHECK(x[0] == 0 && x[1] == IN.d[0] && x[2] == IN.d[1], "the source has its new value");
#else
    CHECK(vp_tag_del(7, s) == 0, "the source is deleted");
    v = vp_tag_add(7, "V", DAX_BYTE, 3, 0);
    CHECK(v >= 0 && vp_wr(7, v, 1, IN.d, 2) == 0, "tags can be added");
    tag_read(7, d, 0, x, 4);
    for(int i = 0; i < 4; i++) CHECK(x[i] == 0, "a mapping ends with its source");
#endif
    COVER("end");
#endif
}
