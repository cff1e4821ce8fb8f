/* C08: two mappings of one source that differ in a single field of their handles: both exist */
#include "srv_ops.h"
VP_INPUTS { uint8_t s[3], d[2][3]; };
#include "vp_main.h"
static int bitof(const uint8_t *p, int n) { return (p[n / 8] >> (n % 8)) & 1; }
struct h { int byte, bit, count, size, di, db, dbit, dsize; };
static const struct h H[2] = {{M0}, {M1}};
void vp_main(void) {
    int32_t s, d[2], id[2];
    uint8_t m[42], x[3];
    vp_server_start();
    s = tag_add(7, "S", TY, TY == DAX_BOOL ? 23 : 3, 0);
    for(int i = 0; i < 2; i++) { d[i] = tag_add(7, i ? "E" : "D", TY, TY == DAX_BOOL ? 23 : 3, 0); tag_write(7, d[i], 0, (uint8_t *)IN.d[i], 3); }
    for(int i = 0; i < 2; i++) {
        vp_handle(m, s, H[i].byte, H[i].bit, H[i].count, H[i].size, TY);
        vp_handle(m + 21, d[H[i].di], H[i].db, H[i].dbit, H[i].count, H[i].dsize, TY);
        VP_RSP_RESET();
        vp_send(7, MSG_MAP_ADD, m, 42);
        id[i] = vp_result(MSG_MAP_ADD);
        CHECK(id[i] >= 0, "mapping added");
    }
    CHECK(id[0] != id[1], "different mappings have different ids");
    CHECK(vp_wr(8, s, 0, IN.s, 3) == 0, "written");
    for(int t = 0; t < 2; t++) {
        tag_read(7, d[t], 0, x, 3);
        for(int b = 0; b < 24; b++) {
            int mapped = 0, ok = 0;
            for(int i = 0; i < 2; i++) {
                int n = TY == DAX_BOOL ? H[i].count : 8 * H[i].size, from = 8 * H[i].db + H[i].dbit;
                if(H[i].di == t && b >= from && b < from + n) { mapped = 1; if(bitof(x, b) == bitof(IN.s, b - from + 8 * H[i].byte + H[i].bit)) ok = 1; }
            }
            if(mapped) CHECK(ok, "a mapped bit has the value of its source");
            else CHECK(bitof(x, b) == bitof(IN.d[t], b), "nothing else changes");
        }
    }
    COVER("end");
}
