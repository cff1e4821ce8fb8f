/* C18: a tag group: what is read and written is the data of the members in their order, in exactly the caller's buffer */
#include "lib_srv.h"
VP_INPUTS { uint32_t gidx; uint8_t db[GS], opts; tag_handle h[NH]; int32_t err; uint8_t failat; uint16_t len; };
#include "vp_main.h"
static const uint32_t hs[NH] = SIZES, ht[NH] = TYPES;
static int state, failed;
static void vp_request(void) {
    if(vp_nreq - 1 == IN.failat) { failed = 1; vp_error(IN.err); return; }
    if(vp_cmd == MSG_GRP_ADD) {
        CHECK(vp_len == 2 + 21 * NH && vp_pay[0] == NH && vp_pay[1] == IN.opts, "the group has the members asked for");
        for(int i = 0; i < NH; i++) {
            uint8_t *p = vp_pay + 2 + 21 * i;
            CHECK((int32_t)vp_gle(p) == IN.h[i].index && vp_gle(p + 4) == IN.h[i].byte && p[8] == IN.h[i].bit && vp_gle(p + 9) == IN.h[i].count && vp_gle(p + 13) == hs[i] && vp_gle(p + 17) == ht[i], "the group has the members asked for");
        }
        vp_reply(&IN.gidx, 4);
    } else {
        CHECK(vp_len >= 4 && vp_gle(vp_pay) == IN.gidx, "the group that was added");
        if(vp_cmd == MSG_GRP_READ) { CHECK(vp_len == 4, "complete"); vp_reply(IN.db, GS); }
        else if(vp_cmd == MSG_GRP_WRITE) { CHECK(vp_len == 4 + GS, "all of the data"); for(int i = 0; i < GS; i++) CHECK(vp_pay[4 + i] == IN.db[i], "the data is written"); vp_reply(NULL, 0); }
        else { CHECK(vp_cmd == MSG_GRP_DEL, "no other request"); CHECK(vp_len == 4, "complete"); vp_reply(NULL, 0); }
    }
    state |= 1 << (vp_cmd - MSG_GRP_ADD);
}
void vp_main(void) {
    tag_handle h[NH];
    tag_group_id *g;
    uint8_t *b;
    int r, len;
    vp_lib_init();
    ASSUME(IN.err < 0);
#ifdef CDT
    { char s[] = CDT; add_cdt_to_cache(ds, CDT_TO_TYPE(2), s); }
#endif
    for(int i = 0; i < NH; i++) { IN.h[i].size = hs[i]; IN.h[i].type = ht[i]; h[i] = IN.h[i]; }
#ifdef COUNTS
    { static const uint32_t c[NH] = COUNTS; for(int i = 0; i < NH; i++) h[i].count = IN.h[i].count = c[i]; }
#endif
    r = 77; g = dax_group_add(ds, &r, h, NH, IN.opts); UNLOCKED();
    CHECK(failed ? r == IN.err && g == NULL : r == 0 && g != NULL, "the answer of the server is returned");
    if(!g) { COVER("not added"); return; }
    CHECK(dax_group_get_size(g) == GS, "the size of the group");
    b = malloc(GS);
    if(IN.len < GS) { CHECK(dax_group_read(ds, g, b, IN.len) == ERR_ARG, "a buffer that is too small is not used"); CHECK(vp_nreq == 1, "no request"); UNLOCKED(); }
    r = dax_group_read(ds, g, b, GS); UNLOCKED();
    CHECK(r == (failed ? IN.err : 0), "the answer of the server is returned");
    if(failed) { COVER("not read"); return; }
    for(int i = 0; i < GS; i++) CHECK(b[i] == IN.db[i], "the data is read");
    r = dax_group_write(ds, g, b); UNLOCKED();
    CHECK(r == (failed ? IN.err : 0), "the answer of the server is returned");
    if(failed) { COVER("not written"); return; }
    r = dax_group_del(ds, g); UNLOCKED();
    CHECK(r == (failed ? IN.err : 0), "the answer of the server is returned");
    if(failed) { COVER("not deleted"); CHECK(dax_group_get_size(g) == GS, "the group is still there"); return; }
    CHECK(state == (1 << 0 | 1 << (MSG_GRP_READ - MSG_GRP_ADD) | 1 << (MSG_GRP_WRITE - MSG_GRP_ADD) | 1 << (MSG_GRP_DEL - MSG_GRP_ADD)), "one request for each call");
    COVER("deleted");
}
