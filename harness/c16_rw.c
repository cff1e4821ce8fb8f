/* C16: a group reads and writes exactly the data of its members */
#include "srv_ops.h"
VP_INPUTS { uint8_t a[4], b[4], d[8], n; int32_t off, idx; uint32_t sz[2]; };
#include "vp_main.h"
static int32_t add_group(int fd, const uint8_t *h, int count) {
    uint8_t m[2 + 42];
    m[0] = count; m[1] = 0;
    for(int i = 0; i < 21 * count; i++) m[2 + i] = h[i];
    VP_RSP_RESET();
    vp_send(fd, MSG_GRP_ADD, m, 2 + 21 * count);
    return vp_result(MSG_GRP_ADD);
}
void vp_main(void) {
    int32_t t, u, g, r;
    uint8_t h[42], m[4 + 8], x[4], y[4];
    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", DAX_BYTE, 4, 0);
    u = tag_add(7, "U", BTYPE, BCOUNT, 0);
    CHECK(vp_wr(7, t, 0, IN.a, 4) == 0 && vp_wr(7, u, 0, IN.b, 4) == 0, "written");
#if CASE == 2 /* one member described by any index, offset and size: read */
    vp_handle(h, IN.idx, IN.off, 0, 1, SIZE, DAX_BYTE);
    ASSUME(IN.idx < 0 || IN.idx >= t);
    g = add_group(7, h, 1);
    CHECK(g == 0, "a group that is not too big can be added");
    g = 0;
    vp_put32(m, g);
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_READ, m, 4);
    int inb = (IN.idx == t || IN.idx == u) && IN.off >= 0 && (uint64_t)IN.off + (uint32_t)SIZE <= 4;
    if(!inb) { CHECK(VP_IS_ERROR(MSG_GRP_READ), "members outside of the tags cannot be read"); COVER("refused"); return; }
    CHECK(VP_IS_RESPONSE(MSG_GRP_READ) && vp_rsp.size == (uint32_t)SIZE, "the data of the member");
    for(int i = 0; i < 4; i++) if(i < (int)(uint32_t)SIZE) CHECK(vp_rsp.data[i] == (IN.idx == t ? IN.a : IN.b)[IN.off + i], "the data of the member");
#if SIZE <= 4
    COVER("read");
#endif
#elif CASE == 3 /* ... write */
    vp_handle(h, IN.idx, IN.off, 0, 1, SIZE, DAX_BYTE);
    ASSUME(IN.idx < 0 || IN.idx >= t);
    g = add_group(7, h, 1);
    CHECK(g == 0, "a group that is not too big can be added");
    g = 0;
    vp_put32(m, g);
    for(int i = 0; i < 6; i++) m[4 + i] = IN.d[i];
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_WRITE, m, 4 + 6);
    int inb = (IN.idx == t || IN.idx == u) && IN.off >= 0 && (uint64_t)IN.off + (uint32_t)SIZE <= 4;
    if(inb) CHECK(VP_IS_RESPONSE(MSG_GRP_WRITE), "written");
#if SIZE <= 4
    if(inb) COVER("written");
#endif
    if(!inb) { CHECK(VP_IS_ERROR(MSG_GRP_WRITE), "members outside of the tags cannot be written"); COVER("refused"); }
    tag_read(7, t, 0, x, 4); tag_read(7, u, 0, y, 4);
    for(int i = 0; i < 4; i++) {
        int in = inb && i >= IN.off && i - IN.off < (int)(uint32_t)SIZE;
        CHECK(x[i] == (in && IN.idx == t ? IN.d[i - IN.off] : IN.a[i]) && y[i] == (in && IN.idx == u ? IN.d[i - IN.off] : IN.b[i]), "exactly the data of the member is written");
    }
#elif CASE == 4 /* a group whose data does not fit into a message */
    vp_handle(h, IN.idx, IN.off, 0, 1, IN.sz[0], DAX_BYTE);
    vp_handle(h + 21, IN.idx, IN.off, 0, 1, IN.sz[1], DAX_BYTE);
    ASSUME((uint64_t)IN.sz[0] + (IN.n ? IN.sz[1] : 0) > DAX_MSGMAX - 8); /* not even without any overhead */
    if(IN.n) g = add_group(7, h, 2); else g = add_group(7, h, 1);
    CHECK(g < 0, "a group that cannot be read or written in one message is refused");
    if(IN.n) COVER("two"); else COVER("one");
#elif CASE == 5 /* one of three members cannot be read or written */
    int32_t w = tag_add(7, "W", DAX_BYTE, 4, KIND == 1 ? TAG_ATTR_OWNED : 0);
    uint8_t g3[2 + 63];
    g3[0] = 3; g3[1] = 0;
    for(int i = 0; i < 3; i++) vp_handle(g3 + 2 + 21 * i, i == POS ? w : i == (POS ? 0 : 1) ? t : u, 0, 0, 1, 2, DAX_BYTE);
    if(KIND == 2) vp_handle(g3 + 2 + 21 * POS, w, 3, 0, 1, 2, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_ADD, g3, 65);
    g = vp_result(MSG_GRP_ADD);
    if(g < 0) goto done; /* refused at once */
    if(KIND == 0) CHECK(vp_tag_del(7, w) == 0, "the tag of a member is deleted");
    if(KIND == 1) tag_del(w);
    vp_put32(m, g);
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_READ, m, 4);
    CHECK(VP_IS_ERROR(MSG_GRP_READ), "a read that cannot return the data of all members is an error");
    for(int i = 0; i < 6; i++) m[4 + i] = IN.d[i];
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_WRITE, m, 10);
    CHECK(VP_IS_ERROR(MSG_GRP_WRITE), "a write that cannot write all members is an error");
    tag_read(7, t, 0, x, 4); tag_read(7, u, 0, y, 4);
    for(int i = 0; i < 4; i++) {
        int at = i < 2 ? 2 * (POS ? 0 : 1) + i : 0, au = i < 2 ? 2 * (POS == 2 ? 1 : 2) + i : 0;
        CHECK(x[i] == IN.a[i] || (i < 2 && x[i] == IN.d[at]), "no data goes to another member");
        CHECK(y[i] == IN.b[i] || (i < 2 && y[i] == IN.d[au]), "no data goes to another member");
    }
done:
    COVER("refused");
#else
    vp_handle(h, t, 1, 0, 2, 2, DAX_BYTE);
    vp_handle(h + 21, u, UB, UBIT, UCOUNT, USIZE, BTYPE);
    g = add_group(7, h, 2);
    CHECK(g >= 0, "group added");
    vp_put32(m, g);
    VP_RSP_RESET();
    vp_send(7, MSG_GRP_READ, m, 4);
    CHECK(VP_IS_RESPONSE(MSG_GRP_READ) && vp_rsp.size == 2 + USIZE, "a read returns the data of all members");
    CHECK(vp_rsp.data[0] == IN.a[1] && vp_rsp.data[1] == IN.a[2], "the data of the first member");
    for(int i = 0; i < USIZE; i++) {
        uint8_t k = 0;
        for(int b = 0; b < 8; b++) if(BTYPE != DAX_BOOL || (8 * i + b >= UBIT && 8 * i + b < UBIT + UCOUNT)) k |= 1 << b;
        CHECK((vp_rsp.data[2 + i] & k) == (IN.b[UB + i] & k), "the data of the second member");
    }
    for(int i = 0; i < 8; i++) m[4 + i] = IN.d[i];
    ASSUME(IN.n <= 8);
    VP_RSP_RESET();
    VP_SEND_LEN(7, MSG_GRP_WRITE, m, 4u + IN.n, 4, 12);
    r = vp_result(MSG_GRP_WRITE);
    CHECK((r >= 0) == (IN.n >= 2 + USIZE), "a write needs data for all members");
    if(r >= 0) COVER("written"); else COVER("refused");
    tag_read(7, t, 0, x, 4); tag_read(7, u, 0, y, 4);
    CHECK(x[0] == IN.a[0] && x[1] == (r >= 0 ? IN.d[0] : IN.a[1]) && x[2] == (r >= 0 ? IN.d[1] : IN.a[2]) && x[3] == IN.a[3], "exactly the first member is written");
    for(int i = 0; i < 4; i++) {
        uint8_t k = 0;
        if(r >= 0) for(int b = 0; b < 8; b++) { int p = 8 * (i - UB) + b; if(i >= UB && i < UB + USIZE && (BTYPE != DAX_BOOL || (p >= UBIT && p < UBIT + UCOUNT))) k |= 1 << b; }
        CHECK(y[i] == (uint8_t)((IN.b[i] & ~k) | (i >= UB && i < UB + USIZE ? IN.d[2 + i - UB] & k : 0)), "exactly the second member is written");
    }
#endif
}
