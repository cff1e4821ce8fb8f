/* C12: queues are independent of each other and of deleted queues, ordinary tags take their place */
#include "srv_ops.h"
VP_INPUTS { uint8_t a[3][2], b[3][4], c[4]; int32_t off; };
#include "vp_main.h"
void vp_main(void) {
    uint8_t x[4], m[24];
    int32_t p, q, n;
    vp_server_start();
    vp_register(7, "m");
    p = tag_add(7, "P", DAX_INT | DAX_QUEUE, 1, 0);
    q = tag_add(7, "Q", DAX_BYTE | DAX_QUEUE, 4, 0);
    for(int i = 0; i < 3; i++) {
        CHECK(vp_wr(7, p, 0, IN.a[i], 2) == 0 && vp_wr(7, q, 0, IN.b[i], 4) == 0, "queues can be written");
        if(i == 1) { CHECK(vp_rd(7, p, 0, x, 2) == 0, "read"); CHECK(x[0] == IN.a[0][0] && x[1] == IN.a[0][1], "the first of the first queue"); }
    }
    CHECK(vp_rd(7, q, 0, x, 4) == 0, "read");
    for(int j = 0; j < 4; j++) CHECK(x[j] == IN.b[0][j], "the first of the second queue");
    CHECK(vp_tag_del(7, p) == 0, "a queue can be deleted");
    vp_put32(m, p); vp_put32(m + 4, IN.off); vp_put32(m + 8, 2);
    VP_RSP_RESET(); vp_send(7, MSG_TAG_READ, m, 12); CHECK(VP_IS_ERROR(MSG_TAG_READ), "a deleted queue cannot be read");
    VP_RSP_RESET(); vp_send(7, MSG_TAG_WRITE, m, 10); CHECK(VP_IS_ERROR(MSG_TAG_WRITE), "a deleted queue cannot be written");
    n = vp_tag_add(7, "P", NTYPE, NCNT, 0);
    CHECK(n > 0 && n != q, "the name can be used again");
    if((NTYPE) & DAX_QUEUE) CHECK(vp_rd(7, n, 0, x, 2) < 0, "a new queue is empty");
    else {
        CHECK(vp_rd(7, n, 0, x, 4) == 0, "read");
        for(int j = 0; j < 4; j++) CHECK(x[j] == 0, "a new tag is zero");
        CHECK(vp_wr(7, n, 1, IN.c, 3) == 0 && vp_rd(7, n, 0, x, 4) == 0, "an ordinary tag");
        CHECK(x[0] == 0 && x[1] == IN.c[0] && x[2] == IN.c[1] && x[3] == IN.c[2], "an ordinary tag");
        CHECK(vp_rd(7, n, 0, x, 4) == 0 && x[1] == IN.c[0], "an ordinary tag keeps its data");
    }
    for(int i = 1; i < 3; i++) {
        CHECK(vp_rd(7, q, 0, x, 4) == 0, "read");
        for(int j = 0; j < 4; j++) CHECK(x[j] == IN.b[i][j], "the other queue is still there");
    }
    CHECK(vp_rd(7, q, 0, x, 4) < 0, "now empty");
    COVER("end");
}
