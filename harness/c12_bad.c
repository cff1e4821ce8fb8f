/* C12: a queue is only written and read as a whole; all other requests are refused and change nothing */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[2][4], b[8]; int32_t off; uint32_t size, len; uint16_t op; };
#include "vp_main.h"
void vp_main(void) {
    uint8_t m[24], x[4];
    int32_t q, q2;
    vp_server_start();
    vp_register(7, "m");
    q = tag_add(7, "Q", QTYPE | DAX_QUEUE, QCNT, 0);
    CHECK(q > 0, "a queue can be added");
    if(FILL > 0) CHECK(vp_wr(7, q, 0, IN.d[0], QSZ) == 0, "a queue can be written");
    VP_NOALLOC();
    vp_put32(m, q); vp_put32(m + 4, IN.off);
    VP_RSP_RESET();
#if OP == 0 /* read */
    ASSUME(IN.off != 0 || IN.size != QSZ);
    vp_put32(m + 8, IN.size);
    vp_send(7, MSG_TAG_READ, m, 12);
    CHECK(VP_IS_ERROR(MSG_TAG_READ), "a queue is only read as a whole");
#elif OP == 1 /* write */
    for(int i = 0; i < 8; i++) m[8 + i] = IN.b[i];
    ASSUME(IN.len <= 8 && (IN.off != 0 || IN.len != QSZ));
    VP_SEND_LEN(7, MSG_TAG_WRITE, m, 8 + IN.len, 8, 16);
    CHECK(VP_IS_ERROR(MSG_TAG_WRITE), "a queue is only written as a whole");
#elif OP == 2 /* masked write */
    for(int i = 0; i < 8; i++) m[8 + i] = IN.b[i];
    vp_send(7, MSG_TAG_MWRITE, m, 16);
    CHECK(VP_IS_ERROR(MSG_TAG_MWRITE), "a queue has no masked writes");
#elif OP == 3 /* atomic operation */
    CHECK(vp_atomic(7, q, IN.off, 1, QTYPE, 0, IN.op, IN.b, 4) < 0, "a queue has no atomic operations");
#elif OP == 4 /* override */
    for(int i = 0; i < 4; i++) m[8 + i] = 0;
    for(int i = 0; i < 8; i++) m[12 + i] = IN.b[i];
    vp_send(7, MSG_ADD_OVRD, m, 20);
    CHECK(VP_IS_ERROR(MSG_ADD_OVRD), "a queue has no overrides");
    m[4] = 1;
    VP_RSP_RESET();
    vp_send(7, MSG_SET_OVRD, m, 5);
    CHECK(VP_IS_ERROR(MSG_SET_OVRD), "a queue has no overrides");
#endif
    COVER("refused");
    if(FILL > 0) {
        tag_read(7, q, 0, x, QSZ);
        for(int i = 0; i < QSZ; i++) CHECK(x[i] == IN.d[0][i], "a refused request does not change the queue");
    }
    CHECK(vp_rd(7, q, 0, x, QSZ) < 0, "the queue is empty again");
}
