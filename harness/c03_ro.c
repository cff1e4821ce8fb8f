/* C03: no request changes a protected tag. OP: 0 write, 1 mask, 2 atomic, 3 group
 * KIND 0: system tags; KIND 1: a read only tag owned by fd 7; KIND 2: an owned, writable tag */
#include "srv_ops.h"
#define N 4
VP_INPUTS { uint8_t which; uint8_t fd; int32_t off; uint8_t data[N], mask[N], d0[N]; uint16_t op; uint32_t type; uint32_t count; uint8_t bit; };
#include "vp_main.h"

static int32_t attempt(int fd, int32_t idx) {
#if OP == 0
    return vp_wr(fd, idx, IN.off, IN.data, N);
#elif OP == 1
    return vp_mwr(fd, idx, IN.off, IN.data, IN.mask, N);
#elif OP == 2
    return vp_atomic(fd, idx, IN.off, 1, DAX_DINT, 0, IN.op, IN.data, N);
#else
    uint8_t m[2 + 21] = { 1, 0 };
    int32_t g;
    vp_handle(m + 2, idx, 0, 0, N, N, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(fd, MSG_GRP_ADD, m, 2 + 21);
    g = vp_result(MSG_GRP_ADD);
    if(g < 0) return g;
    vp_put32(m, g);
    for(int i = 0; i < N; i++) m[4 + i] = IN.data[i];
    VP_RSP_RESET();
    vp_send(fd, MSG_GRP_WRITE, m, 4 + N);
    return vp_result(MSG_GRP_WRITE);
#endif
}

void vp_main(void) {
    int32_t r = 1;
    vp_server_start();
#if OP == 3
    vp_register(7, "a");
    vp_register(8, "b");
#endif
#if KIND == 0
    /* sizes of _tagcount _lastindex _tag_added _tag_deleted _dbsize _starttime _lastmodule _overrides_installed _overrides_set */
    static const uint8_t sz[11] = { 4, 4, 47, 47, 4, 8, 33, 4, 4, 0, 0 };
    uint8_t b[47], a[47];
    ASSUME(IN.which < 11);
#ifdef WHICH
    { int k = WHICH;
#else
    for(int k = 0; k < 11; k++) if(IN.which == k) {
#endif
        if(sz[k]) CHECK(tag_read(-1, k, 0, b, sz[k]) == 0, "system tags can be read");
        r = attempt(7, k);
        CHECK(r < 0, "modules cannot write system tags");
        if(sz[k]) {
            CHECK(tag_read(-1, k, 0, a, sz[k]) == 0, "system tags can be read");
            for(int i = 0; i < 47; i++) if(i < sz[k]) CHECK(a[i] == b[i], "system tags keep their value");
        }
    }
    COVER("end");
#else
    int32_t t;
    uint8_t v[2 * N];
    int allowed, inb = IN.off >= 0 && IN.off <= N;
    t = vp_tag_add(7, "T", DAX_BYTE, 2 * N, KIND == 1 ? TAG_ATTR_OWNED | TAG_ATTR_READONLY : TAG_ATTR_OWNED);
    CHECK(t >= 0, "an owned tag can be added");
    CHECK(tag_write(7, t, 0, IN.d0, N) == 0, "the server can write it");
    ASSUME(IN.fd == 7 || IN.fd == 8);
    if(IN.fd == 7) r = attempt(7, t); else r = attempt(8, t);
    allowed = KIND == 2 || IN.fd == 7;
    tag_read(7, t, 0, v, 2 * N);
    if(!allowed) {
        CHECK(r < 0, "only the owner can write a read only tag");
        for(int i = 0; i < 2 * N; i++) CHECK(v[i] == (i < N ? IN.d0[i] : 0), "a refused write changes nothing");
        COVER("refused");
    } else {
#if OP == 0
        CHECK((r >= 0) == inb, "the owner's write is accepted");
        for(int i = 0; i < 2 * N; i++) if(inb && i >= IN.off && i < IN.off + N) CHECK(v[i] == IN.data[i - IN.off], "the owner's data is stored");
#elif OP == 1
        CHECK((r >= 0) == inb, "the owner's masked write is accepted");
#elif OP == 3
        CHECK(r >= 0, "the owner's group write is accepted");
        for(int i = 0; i < N; i++) CHECK(v[i] == IN.data[i], "the owner's data is stored");
#endif
        if(r >= 0) COVER("accepted");
    }
#endif
}
