/* C15: a message of command CMD with LEN bytes of any content: too short for the command, or of no command at all */
#include "srv_ops.h"
VP_INPUTS { uint8_t p[LEN + 4], d[2][4]; uint32_t cmd; };
#include "vp_main.h"
void vp_main(void) {
    uint8_t m[48], x[4];
    int32_t t, u;
    vp_server_start();
    vp_register(7, "m"); vp_register(8, "n");
    t = tag_add(8, "T", DAX_BYTE, 4, TAG_ATTR_OWNED);
    u = tag_add(8, "U", DAX_BYTE, 4, 0);
    CHECK(vp_wr(8, t, 0, IN.d[0], 4) == 0 && vp_wr(8, u, 0, IN.d[1], 4) == 0, "written");
    CHECK(vp_evnt_add(8, t, 0, 4, DAX_BYTE, EVENT_WRITE, 4, 0, NULL, 0) == 1, "subscribed");
    vp_handle(m, t, 0, 0, 2, 2, DAX_BYTE); vp_handle(m + 21, u, 0, 0, 2, 2, DAX_BYTE);
    m[42] = 0;
    { uint8_t g[23] = {1, 0}; vp_handle(g + 2, t, 0, 0, 1, 1, DAX_BYTE); VP_RSP_RESET(); vp_send(8, MSG_GRP_ADD, g, 23); CHECK(vp_result(MSG_GRP_ADD) == 0, "group"); }
    vp_evt_reset();
#ifndef ALLOC
    VP_NOALLOC();
#endif
    VP_RSP_RESET();
#ifdef OFTAG /* the tag of the request is a real one */
    { int32_t of = OFTAG; memcpy(IN.p, &of, 4); }
#endif
#ifdef CMD
    vp_send(FROM, CMD, IN.p, LEN);
    CHECK(vp_rsp_count == REPLIES, "every request is answered once");
    if(REPLIES) CHECK(vp_rsp.fd == FROM && (vp_rsp.type == ((CMD) | 0x01000000u) || (vp_rsp.type == ((CMD) | 0x02000000u) && vp_rsp.size == 4)), "the answer goes to the sender");
#else /* not a command */
    { static unsigned char b[DAX_MSGMAX];
      vp_be32(b, 8 + LEN);
#ifdef BAD
      vp_be32(b + 4, BAD);
#else
      ASSUME(IN.cmd == 0 || IN.cmd > 0x1B); vp_be32(b + 4, IN.cmd);
#endif
      for(int i = 0; i < LEN; i++) b[8 + i] = IN.p[i];
      CHECK(msg_dispatcher(FROM, b) < 0, "no such request");
      CHECK(vp_rsp_count == 0, "no such request");
      }
#endif
    COVER("answered");
#if defined(CMD) || defined(BAD)
    CHECK(vp_evt_total == 0, "nobody is notified");
    tag_read(-1, t, 0, x, 4); for(int i = 0; i < 4; i++) CHECK(x[i] == IN.d[0][i], "no tag is changed");
    tag_read(-1, u, 0, x, 4); for(int i = 0; i < 4; i++) CHECK(x[i] == IN.d[1][i], "no tag is changed");
    CHECK(vp_wr(8, t, 1, IN.d[1], 2) == 0 && vp_evt_count[1] == 1 && vp_evt_total == 1, "the server goes on");
    { uint8_t g[5] = {0}; g[4] = IN.d[1][3]; VP_RSP_RESET(); vp_send(8, MSG_GRP_WRITE, g, 5); CHECK(VP_IS_RESPONSE(MSG_GRP_WRITE), "the server goes on"); }
    tag_read(-1, t, 0, x, 4); CHECK(x[0] == IN.d[1][3] && x[1] == IN.d[1][0] && x[2] == IN.d[1][1] && x[3] == IN.d[0][3], "the server goes on");
#endif
}
