/* C10: the virtual tags _time and _my_tagname, and _lastmodule */
#include "srv_ops.h"
VP_INPUTS { uint8_t who; int32_t off, size; int64_t clock; };
#include "vp_main.h"
void vp_main(void) {
    uint8_t m[12], want[33] = {0};
    int n;
    vp_server_start();
    vp_register(7, "ab");
    vp_register(8, "c");
    { uint8_t l[33];
      tag_read(7, 6, 0, l, 33);
      CHECK(l[0] == '_' && l[1] == 'm' && l[2] == 'c' && l[3] == 0, "_lastmodule is the tag of the last module"); }
    ASSUME(IN.clock >= 0 && IN.clock < 10000000000ll);
    vp_tv_sec = IN.clock;
    int64_t now = IN.clock * 1000 + 123;
#if TAG == 9
    n = 8;
    for(int i = 0; i < 8; i++) want[i] = now >> (8 * i);
#else
    n = 33;
    want[0] = '_'; want[1] = 'm';
    if(IN.who == 0) { want[2] = 'a'; want[3] = 'b'; } else want[2] = 'c';
#endif
    vp_put32(m, TAG); vp_put32(m + 4, IN.off); vp_put32(m + 8, IN.size);
    VP_RSP_RESET();
    if(IN.who == 0) vp_send(7, MSG_TAG_READ, m, 12); else if(IN.who == 1) vp_send(8, MSG_TAG_READ, m, 12); else vp_send(9, MSG_TAG_READ, m, 12);
    CHECK(vp_rsp_count == 1, "exactly one reply");
    if((TAG == 10 && IN.who > 1) || IN.off < 0 || IN.size < 0 || (int64_t)IN.off + IN.size > n) { CHECK(VP_IS_ERROR(MSG_TAG_READ), "a read outside of the tag or by a stranger is refused"); COVER("refused"); return; }
    CHECK(VP_IS_RESPONSE(MSG_TAG_READ) && vp_rsp.size == (uint32_t)IN.size, "the part asked for is returned");
    for(int i = 0; i < 33; i++) if(i < IN.size) CHECK(vp_rsp.data[i] == want[IN.off + i], "the value asked for");
    COVER("read");
}
