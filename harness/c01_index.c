/* C01: messages naming an index that never existed or was deleted. */
#include "server_env.h"
#define N 4
VP_INPUTS { int32_t idx; int32_t off; uint32_t rsize; uint8_t data[8]; uint8_t d0[N]; };
#include "vp_main.h"

static int try(int cmd, uint8_t *m, int len) {
    VP_RSP_RESET();
    vp_send(7, cmd, m, len);
    CHECK(vp_rsp_count == 1 && vp_rsp.fd == 7, "exactly one reply, to the sender");
    CHECK(VP_IS_ERROR(cmd), "a message naming no tag is answered with an error");
    CHECK((int32_t)vp_get32(vp_rsp.data) < 0, "the error code is negative");
    return 0;
}

static void one(uint8_t *m) {
    vp_put32(m + 4, IN.off);
    vp_put32(m + 8, IN.rsize);
    for(int i = 0; i < 8; i++) m[12 + i] = IN.data[i];
#if OP == 0
    try(MSG_TAG_READ, m, 12);
#elif OP == 1
    try(MSG_TAG_WRITE, m, 12);
#elif OP == 2
    try(MSG_TAG_MWRITE, m, 12);
#endif
}

void vp_main(void) {
    tag_index l, t, r;
    uint8_t m[32], v[N];
    int32_t idx;

    vp_server_start();
    l = tag_add(7, "L", DAX_BYTE, N, 0);
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    r = tag_add(7, "R", DAX_BYTE, N, 0);
    tag_write(7, l, 0, IN.d0, N); tag_write(7, r, 0, IN.d0, N);
    CHECK(tag_del(t) == 0, "a tag can be deleted");
#ifdef DELETED
    idx = t;
#else
    idx = IN.idx;
    ASSUME(idx < 0 || idx > r);
#endif
#ifdef SPLIT
    /* the virtual tags' function pointers make a free index intractable: the boundary values, each decided for all payloads */
    static const int32_t vals[] = { -2147483647 - 1, -2147483647, -256, -2, -1, 14, 15, 16, 17, 31, 32, 255, 256, 65535, 65536, 2147483646, 2147483647 };
    int hit = 0;
    CHECK(r == 13, "three tags were added behind the system tags");
    for(unsigned k = 0; k < sizeof(vals) / sizeof(vals[0]); k++) if(idx == vals[k]) { vp_put32(m, vals[k]); hit = 1; one(m); break; }
    ASSUME(hit);
#else
    vp_put32(m, idx);
    one(m);
#endif
    COVER("error reply");
    tag_read(7, l, 0, v, N);
    for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "no other tag changes");
    tag_read(7, r, 0, v, N);
    for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "no other tag changes");
}
