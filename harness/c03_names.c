/* C03: reserved names cannot be added, reserved tags cannot be deleted, and an
 * owned tag cannot be re-declared by another module. */
#include "srv_ops.h"
VP_INPUTS { char name[4]; uint32_t type, count, attr; uint8_t which; };
#include "vp_main.h"
void vp_main(void) {
    dax_tag tag;
    int32_t r, t;
    uint8_t m[16];
    vp_server_start();
#if CASE == 0
    /* any message that adds a name starting with an underscore */
    int before = get_tagindex();
    vp_put32(m, IN.type); vp_put32(m + 4, IN.count); vp_put32(m + 8, IN.attr);
    m[12] = '_'; m[13] = IN.name[1]; m[14] = IN.name[2]; m[15] = 0;
    VP_RSP_RESET();
    vp_send(7, MSG_TAG_ADD, m, 16);
    r = vp_result(MSG_TAG_ADD);
    CHECK(r < 0, "names starting with an underscore are reserved");
    CHECK(get_tagindex() == before, "nothing is added");
    COVER("refused");
#elif CASE == 1
    /* deleting any of the system tags */
    for(int k = 0; k < 11; k++) if(IN.which == k) {
        r = vp_tag_del(7, k);
        CHECK(r < 0, "reserved tags cannot be deleted by a module");
        CHECK(tag_get_index(k, &tag) == 0, "the reserved tag is still there");
        CHECK(tag.name[0] == '_' && tag.count >= 1, "the reserved tag is unchanged");
        COVER("refused");
    }
#elif CASE == 2
    t = vp_tag_add(7, "T", DAX_BYTE, 4, TAG_ATTR_OWNED);
    CHECK(t >= 0, "added");
    ASSUME(IN.count >= 1 && IN.count <= 8);
    r = vp_tag_add(8, "T", DAX_BYTE, IN.count, IN.attr & ~TAG_ATTR_RETAIN);
    CHECK(r < 0, "a tag owned by another module cannot be declared again");
    CHECK(tag_get_index(t, &tag) == 0 && tag.count == 4 && tag.type == DAX_BYTE && (tag.attr & TAG_ATTR_OWNED) && !(tag.attr & TAG_ATTR_READONLY), "the owned tag is unchanged");
    COVER("refused");
#elif CASE == 3
    /* a mapping into a protected tag */
    uint8_t p[42];
    int32_t d;
    t = vp_tag_add(7, "S", DAX_BYTE, 4, 0);
    d = vp_tag_add(7, "D", DAX_BYTE, 4, TAG_ATTR_OWNED | TAG_ATTR_READONLY);
    ASSUME(IN.which < 12);
    for(int k = 0; k < 12; k++) if(IN.which == k) {
        vp_handle(p, t, 0, 0, 4, 4, DAX_BYTE);
        vp_handle(p + 21, k < 11 ? k : d, 0, 0, 4, 4, DAX_BYTE);
        VP_RSP_RESET();
        vp_send(8, MSG_MAP_ADD, p, 42);
        CHECK(vp_result(MSG_MAP_ADD) < 0, "nothing can be mapped into a read only tag");
        COVER("refused");
    }
#endif
}
