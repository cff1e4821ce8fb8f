/* C08: histories of deleting and re-adding mappings and of writes: exactly the mappings that exist take effect. */
#include "srv_ops.h"
#define NM 3
VP_INPUTS { struct { uint8_t op; int32_t id; uint8_t which, d[2]; } st[K]; };
#include "vp_main.h"
static int32_t s, d;
static uint8_t ms[2], md[4];
static int32_t mid[NM]; static int alive[NM];
static const uint8_t soff[NM] = {0, 1, 0}, doff[NM] = {0, 1, 2}, sz[NM] = {1, 1, 2};
static int32_t add(int i) {
    uint8_t m[42];
    vp_handle(m, s, soff[i], 0, sz[i], sz[i], DAX_BYTE);
    vp_handle(m + 21, d, doff[i], 0, sz[i], sz[i], DAX_BYTE);
    VP_RSP_RESET();
    vp_send(7, MSG_MAP_ADD, m, 42);
    return vp_result(MSG_MAP_ADD);
}
void vp_main(void) {
    uint8_t x[4];
    vp_server_start();
    s = tag_add(7, "S", DAX_BYTE, 2, 0);
    d = tag_add(7, "D", DAX_BYTE, 4, 0);
    for(int i = 0; i < NM; i++) {
        mid[i] = add(i); alive[i] = 1;
        CHECK(mid[i] >= 0, "mapping added");
        for(int j = 0; j < i; j++) CHECK(mid[i] != mid[j], "mapping ids are unique");
    }
    CHECK(add(1) == mid[1], "a duplicate is the same mapping");
    for(int k = 0; k < K; k++) {
        if(IN.st[k].op == 0) {
            int32_t r; uint8_t g[8];
            int found = 0;
            vp_put32(g, s); vp_put32(g + 4, IN.st[k].id);
            VP_RSP_RESET();
            vp_send(7, MSG_MAP_DEL, g, 8);
            r = vp_result(MSG_MAP_DEL);
            for(int i = 0; i < NM; i++) if(alive[i] && mid[i] == IN.st[k].id) { found = 1; alive[i] = 0; }
            CHECK(found ? r >= 0 : r < 0, "a delete succeeds exactly when the mapping exists");
            if(found) COVER("deleted");
        } else {
            CHECK(vp_wr(7, s, 0, IN.st[k].d, 2) == 0, "write accepted");
            ms[0] = IN.st[k].d[0]; ms[1] = IN.st[k].d[1];
            if(alive[0]) md[0] = ms[0];
            if(alive[1]) md[1] = ms[1];
            if(alive[2]) { md[2] = ms[0]; md[3] = ms[1]; }
        }
    }
    tag_read(7, d, 0, x, 4);
    for(int i = 0; i < 4; i++) CHECK(x[i] == md[i], "exactly the existing mappings pass values on");
    tag_read(7, s, 0, x, 2);
    CHECK(x[0] == ms[0] && x[1] == ms[1], "the source has its value");
    COVER("end");
}
