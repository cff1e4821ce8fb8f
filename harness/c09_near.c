/* C09: two names of LEN characters that differ in the character at POS only */
#include "srv_ops.h"
VP_INPUTS { char q; uint8_t d[2]; };
#include "vp_main.h"
static int32_t add(const char *n, uint32_t count) {
    uint8_t m[13 + LEN];
    vp_put32(m, DAX_BYTE); vp_put32(m + 4, count); vp_put32(m + 8, 0);
    for(int i = 0; i < LEN; i++) m[12 + i] = n[i];
    m[12 + LEN] = 0;
    VP_RSP_RESET();
    vp_send(7, MSG_TAG_ADD, m, 13 + LEN);
    return vp_result(MSG_TAG_ADD);
}
static void get(const char *n) {
    uint8_t m[2 + LEN];
    m[0] = TAG_GET_NAME;
    for(int i = 0; i < LEN; i++) m[1 + i] = n[i];
    m[1 + LEN] = 0;
    VP_RSP_RESET();
    vp_send(8, MSG_TAG_GET, m, 2 + LEN);
}
void vp_main(void) {
    char n[2][LEN], q[LEN];
    int32_t t[2];
    uint8_t x[2];
    vp_server_start();
    for(int i = 0; i < LEN; i++) n[0][i] = n[1][i] = q[i] = 'N' + i % 7;
    n[0][POS] = C0; n[1][POS] = C1; q[POS] = IN.q;
    t[0] = add(n[0], 1);
    CHECK(t[0] == 11, "a new tag gets the next index");
    get(n[1]);
    CHECK(VP_IS_ERROR(MSG_TAG_GET), "a name that does not exist is not found");
    t[1] = add(n[1], 2);
    CHECK(t[1] == 12, "a tag of another name is another tag");
    CHECK(vp_wr(7, 11, 0, IN.d, 1) == 0 && vp_wr(7, 12, 0, IN.d + 1, 1) == 0, "written");
    get(q);
    if(IN.q == C0 || IN.q == C1) {
        int w = IN.q == C1;
        CHECK(VP_IS_RESPONSE(MSG_TAG_GET) && (int32_t)vp_get32(vp_rsp.data) == 11 + w && (int32_t)vp_get32(vp_rsp.data + 8) == 1 + w, "a name leads to the tag of exactly that name");
        COVER("found");
    } else CHECK(VP_IS_ERROR(MSG_TAG_GET), "a name that does not exist is not found");
    if(WHICH) CHECK(vp_tag_del(7, 11) == 0, "deleted"); else CHECK(vp_tag_del(7, 12) == 0, "deleted");
    get(n[0]);
    if(WHICH) CHECK(VP_IS_ERROR(MSG_TAG_GET), "a deleted tag is not found"); else CHECK(VP_IS_RESPONSE(MSG_TAG_GET) && vp_get32(vp_rsp.data) == 11, "the other tag is");
    get(n[1]);
    if(!WHICH) CHECK(VP_IS_ERROR(MSG_TAG_GET), "a deleted tag is not found"); else CHECK(VP_IS_RESPONSE(MSG_TAG_GET) && vp_get32(vp_rsp.data) == 12, "the other tag is");
    if(WHICH) CHECK(vp_rd(8, 12, 0, x, 1) == 0 && x[0] == IN.d[1], "and keeps its data"); else CHECK(vp_rd(8, 11, 0, x, 1) == 0 && x[0] == IN.d[0], "and keeps its data");
    COVER("end");
}
