/* C16: more groups than the table starts with; malformed requests */
#include "srv_ops.h"
VP_INPUTS { uint8_t h[43], n, d; uint32_t len, id; };
#include "vp_main.h"
void vp_main(void) {
    uint8_t m[2 + 42], q[5];
    int32_t t, g;
    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", DAX_BYTE, 20, 0);
    m[0] = 1; m[1] = 0;
    for(int i = 0; i < NG; i++) {
        vp_handle(m + 2, t, i, 0, 1, 1, DAX_BYTE);
        VP_RSP_RESET();
        vp_send(7, MSG_GRP_ADD, m, 23);
        g = vp_result(MSG_GRP_ADD);
        CHECK(g == i, "groups can be added");
    }
#if NG > 1
    static const uint8_t ids[] = {0, 16, 7};
    uint8_t y[20], w[20] = {0};
    for(int k = 0; k < 3; k++) {
        vp_put32(q, ids[k]); q[4] = IN.h[k];
        w[ids[k]] = IN.h[k];
        VP_RSP_RESET();
        vp_send(7, MSG_GRP_WRITE, q, 5);
        CHECK(VP_IS_RESPONSE(MSG_GRP_WRITE), "an existing group can be written");
    }
    tag_read(7, t, 0, y, 20);
    for(int i = 0; i < 20; i++) CHECK(y[i] == w[i], "a group writes its own member");
    vp_put32(q, 7);
    VP_RSP_RESET(); vp_send(7, MSG_GRP_DEL, q, 4);
    CHECK(VP_IS_RESPONSE(MSG_GRP_DEL), "a group can be deleted");
    VP_RSP_RESET(); vp_send(7, MSG_GRP_WRITE, q, 5);
    CHECK(VP_IS_ERROR(MSG_GRP_WRITE), "a deleted group cannot be written");
    vp_handle(m + 2, t, 18, 0, 1, 1, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_ADD, m, 23);
    g = vp_result(MSG_GRP_ADD);
    CHECK(g == 7 || g >= 17, "a new group does not take the place of another");
    vp_put32(q, 8);
    VP_RSP_RESET(); vp_send(7, MSG_GRP_READ, q, 4);
    CHECK(VP_IS_RESPONSE(MSG_GRP_READ) && vp_rsp.size == 1 && vp_rsp.data[0] == 0, "the other groups are still there");
    ASSUME(IN.id > 17);
    vp_put32(q, IN.id);
    for(int k = 0; k < 3; k++) {
        VP_RSP_RESET(); vp_send(7, k == 0 ? MSG_GRP_READ : k == 1 ? MSG_GRP_DEL : MSG_GRP_WRITE, q, k == 2 ? 5 : 4);
        CHECK(vp_rsp_count == 1 && (vp_rsp.type & 0x02000000), "a group that does not exist is refused");
    }
    COVER("end");
#else
    /* a request that promises more members than it has */
    m[0] = IN.n;
    for(int i = 0; i < 42; i++) m[2 + i] = IN.h[i];
    ASSUME(IN.len >= 1 && IN.len <= 44 && (IN.n > TAG_GROUP_MAX_MEMBERS || 2u + 21u * IN.n > IN.len));
    VP_NOALLOC();
    VP_RSP_RESET();
    if(IN.len == 44) vp_send(7, MSG_GRP_ADD, m, 44); else if(IN.len == 43) vp_send(7, MSG_GRP_ADD, m, 43); else if(IN.len == 23) vp_send(7, MSG_GRP_ADD, m, 23); else if(IN.len == 22) vp_send(7, MSG_GRP_ADD, m, 22); else ASSUME(0);
    CHECK(vp_result(MSG_GRP_ADD) < 0, "an incomplete group is refused");
    COVER("refused");
#endif
}
