/* C13: after every request the retention database holds exactly the retained tags with their current data */
#include "srv_ops.h"
VP_INPUTS { struct { uint8_t op; int32_t off; uint8_t d[2], k[2]; } st[K]; uint8_t a[4]; };
#include "vp_main.h"
#include "sqlite_stub.h"
static int32_t t, u, v, g;
static void row(const char *name, const char *type, int count, int32_t idx, int size) {
    struct sq_row *r = sq_find(name);
    uint8_t x[SQBLOB];
    CHECK(r != NULL, "a retained tag is in the database");
    ASSUME(r == &sq_tags[idx == t ? 0 : 1]);
    r = &sq_tags[idx == t ? 0 : 1];
    CHECK(sq_eq(r->type, type) && r->count == count && r->size == size && !r->isnull, "with its type and count");
    tag_read(-1, idx, 0, x, size);
    for(int i = 0; i < size; i++) CHECK(r->data[i] == x[i], "and its current data");
}
void vp_main(void) {
    uint8_t m[44];
    vp_server_start();
    ret_init(NULL);
    vp_register(7, "m");
    t = tag_add(7, "T", TYPE, COUNT, TAG_ATTR_RETAIN);
    v = tag_add(7, "V", DAX_BYTE, 3, TAG_ATTR_RETAIN);
    u = tag_add(7, "U", DAX_BYTE, 4, 0);
    vp_handle(m, u, 0, 0, 2, 2, DAX_BYTE); vp_handle(m + 21, v, 1, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET(); vp_send(7, MSG_MAP_ADD, m, 42); CHECK(VP_IS_RESPONSE(MSG_MAP_ADD), "a mapping can be added");
    m[0] = 1; m[1] = 0;
    vp_handle(m + 2, t, 0, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET(); vp_send(7, MSG_GRP_ADD, m, 23); g = vp_result(MSG_GRP_ADD);
    CHECK(g == 0, "a group can be added"); g = 0;
    row("T", TNAME, COUNT, t, SIZE);
    row("V", "BYTE", 3, v, 3);
    for(int k = 0; k < K; k++) {
        uint8_t q[6];
        vp_put32(q, g); q[4] = IN.st[k].d[0]; q[5] = IN.st[k].d[1];
        ASSUME(IN.st[k].op < 6);
        switch(IN.st[k].op) {
        case 0: vp_wr(7, t, IN.st[k].off, IN.st[k].d, 2); break;
        case 1: vp_mwr(7, t, IN.st[k].off, IN.st[k].d, IN.st[k].k, 2); break;
        case 2: vp_atomic(7, t, IN.st[k].off, TYPE == DAX_BOOL ? 8 : 2, TYPE, 0, ATOMIC_OP_XOR, IN.st[k].d, 2); break;
        case 3: VP_RSP_RESET(); vp_send(7, MSG_GRP_WRITE, q, 6); break;
        case 4: vp_wr(7, u, 0, IN.st[k].d, 2); break;
        case 5: vp_wr(7, v, IN.st[k].off, IN.st[k].d, 1); break;
        }
        row("T", TNAME, COUNT, t, SIZE);
        row("V", "BYTE", 3, v, 3);
        CHECK(sq_count() == 2, "and no other tag is in it");
    }
    COVER("end");
}
