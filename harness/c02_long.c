/* C01/C02: (masked) writes of every length up to 18 bytes */
#include "srv_ops.h"
#define N 20
#define ML 18
VP_INPUTS { uint8_t off, len, d0[N], data[ML], mask[ML]; };
#include "vp_main.h"
void vp_main(void) {
    int32_t t, u;
    uint8_t m[8 + 2 * ML], after[N], nb[N];
    vp_server_start();
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    u = tag_add(7, "U", DAX_BYTE, N, 0);
    tag_write(7, t, 0, IN.d0, N);
    tag_write(7, u, 0, IN.d0, N);
    ASSUME(IN.off <= 2 && IN.len <= ML);
    VP_RSP_RESET();
    for(int o = 0; o <= 2; o++) for(int l = 0; l <= ML; l++) if(IN.off == o && IN.len == l) {
        vp_put32(m, t); vp_put32(m + 4, o);
        for(int i = 0; i < l; i++) { m[8 + i] = IN.data[i]; m[8 + l + i] = IN.mask[i]; }
#ifdef PLAIN
        vp_send(7, MSG_TAG_WRITE, m, 8 + l);
#else
        vp_send(7, MSG_TAG_MWRITE, m, 8 + 2 * l);
#endif
    }
#ifdef PLAIN
#define MASK(i) 0xff
    CHECK(VP_IS_RESPONSE(MSG_TAG_WRITE), "the write is done");
#else
#define MASK(i) IN.mask[i]
    CHECK(VP_IS_RESPONSE(MSG_TAG_MWRITE), "the masked write is done");
#endif
    tag_read(7, t, 0, after, N);
    tag_read(7, u, 0, nb, N);
    for(int i = 0; i < N; i++) {
        uint8_t x = IN.d0[i];
        if(i >= IN.off && i < IN.off + IN.len) x = (IN.data[i - IN.off] & MASK(i - IN.off)) | (x & ~MASK(i - IN.off));
        CHECK(after[i] == x, "exactly the selected bits have the new value");
        CHECK(nb[i] == IN.d0[i], "other tags are not affected");
    }
    if(IN.len == ML) COVER("longest");
    if(IN.len == 13) COVER("odd length");
}
