/* C03: the status tag of a module: start time and id are fixed, the rest can only be
 * written by the module itself, except for the command byte. */
#include "srv_ops.h"
#define CMDOFF 77
VP_INPUTS { uint8_t own; int32_t off; uint8_t len; uint8_t data[4], mask[4]; };
#include "vp_main.h"
void vp_main(void) {
    dax_tag tag;
    int32_t r = 1, t;
    uint8_t b[78], a[78];
    int ok, inb;
    vp_server_start();
    vp_register(7, "ab");
    vp_register(8, "c");
    CHECK(tag_get_name("_mab", &tag) == 0, "a module has a status tag");
    t = tag.idx;
    CHECK(tag_read(-1, t, 0, b, 78) == 0, "the status tag has its full size");
    ASSUME(IN.len >= 1 && IN.len <= 4);
    for(int n = 1; n <= 4; n++) if(IN.len == n) {
#ifdef MASK
        if(IN.own) r = vp_mwr(7, t, IN.off, IN.data, IN.mask, n); else r = vp_mwr(8, t, IN.off, IN.data, IN.mask, n);
#else
        if(IN.own) r = vp_wr(7, t, IN.off, IN.data, n); else r = vp_wr(8, t, IN.off, IN.data, n);
#endif
    }
    inb = IN.off >= 0 && IN.off <= 78 && IN.off + IN.len <= 78;
    ok = inb && ((IN.off == CMDOFF && IN.len == 1) || (IN.own && IN.off >= 12));
    CHECK((r >= 0) == ok, "module status tag: command byte by anybody, the rest by the module only, start time and id by nobody");
    tag_read(-1, t, 0, a, 78);
    for(int i = 0; i < 78; i++) {
        uint8_t e = b[i];
        if(ok && i >= IN.off && i < IN.off + IN.len) {
            uint8_t k = 0xFF;
#ifdef MASK
            k = IN.mask[i - IN.off];
#endif
            e = (e & ~k) | (IN.data[i - IN.off] & k);
        }
        CHECK(a[i] == e, "exactly the permitted bytes change");
    }
    if(ok && IN.own) COVER("own write");
    if(ok && !IN.own) COVER("command byte");
    if(!ok) COVER("refused");
    CHECK(vp_tag_del(7, t) < 0, "module tags cannot be deleted");
}
