/* C09 / C10 (STATUS): a history of adding (+) and deleting (-) tags, then lookups of any name and any index. */
#include "srv_ops.h"
VP_INPUTS { char q[QL]; int32_t qi; uint8_t d[2]; };
#include "vp_main.h"
#define FIRST 11
#define L32 "Lq345678901234567890123456789_32"
static const char names[][34] = {"a", "ab", "B", "b_1", "zz", "aB", L32, "b"};
#define NN 8
static int32_t ix[NN] = {-1, -1, -1, -1, -1, -1, -1, -1}; static int last = FIRST - 1, count = FIRST, dbsize = DAX_TAGLIST_SIZE;
static int32_t old[20]; static int nold;
static void get_name(const char *q, int n) {
    uint8_t m[2 + QL];
    int w = -1;
    m[0] = TAG_GET_NAME;
    for(int i = 0; i < QL; i++) m[1 + i] = q[i];
    m[1 + QL] = 0;
    VP_RSP_RESET();
    vp_send(8, MSG_TAG_GET, m, 2 + QL);
    for(int j = 0; j < NN; j++) if(ix[j] >= 0) {
        int eq = 1, end = 0;
        for(int i = 0; i <= QL && !end; i++) { if((i < QL ? q[i] : 0) != names[j][i]) eq = 0; if(names[j][i] == 0) end = 1; }
        if(eq && end) w = j;
    }
    if(w < 0) { CHECK(VP_IS_ERROR(MSG_TAG_GET), "a name that does not exist is not found"); return; }
    CHECK(VP_IS_RESPONSE(MSG_TAG_GET), "an existing tag is found by name");
    CHECK((int32_t)vp_get32(vp_rsp.data) == ix[w], "the name leads to its tag");
    CHECK(vp_get32(vp_rsp.data + 4) == DAX_BYTE && vp_get32(vp_rsp.data + 8) == 2, "type and count");
    COVER("found by name");
}
static void get_index(int32_t q) {
    uint8_t m[5];
    int32_t w = -1;
    m[0] = TAG_GET_INDEX; vp_put32(m + 1, q);
    VP_RSP_RESET();
    vp_send(8, MSG_TAG_GET, m, 5);
    for(int j = 0; j < NN; j++) if(ix[j] >= 0 && ix[j] == q) w = j;
    if(w < 0) CHECK(VP_IS_ERROR(MSG_TAG_GET), "an index that is not in use is not found");
    else {
        CHECK(VP_IS_RESPONSE(MSG_TAG_GET) && (int32_t)vp_get32(vp_rsp.data) == q, "an existing tag is found by index");
        for(int i = 0; i < 2; i++) { CHECK(vp_rsp.data[14 + i] == (uint8_t)names[w][i], "the index leads to its tag"); if(names[w][i] == 0) break; }
        COVER("found by index");
    }
}
static void desc(int32_t sys, int32_t idx, const char *n) {
    uint8_t b[47];
    CHECK(tag_read(8, sys, 0, b, 47) == 0, "description readable");
    CHECK((int32_t)vp_get32(b) == idx && vp_get32(b + 4) == DAX_BYTE && vp_get32(b + 8) == 2 && b[12] == 0 && b[13] == 0, "_tag_added and _tag_deleted describe the tag last added or deleted");
    for(int i = 0; i < 33; i++) { CHECK(b[14 + i] == (uint8_t)n[i], "the name of the tag last added or deleted"); if(n[i] == 0) break; }
}
static void status(void) {
    uint8_t b[4];
    CHECK(vp_rd(8, 0, 0, b, 4) == 0 && (int32_t)vp_get32(b) == count, "_tagcount is the number of tags");
    CHECK(vp_rd(8, 1, 0, b, 4) == 0 && (int32_t)vp_get32(b) == last, "_lastindex is the last index");
    CHECK(vp_rd(8, 4, 0, b, 4) == 0 && (int32_t)vp_get32(b) == dbsize, "_dbsize is the size of the database");
}
void vp_main(void) {
    static const char script[] = SCRIPT;
    vp_server_start();
    for(int k = 0; k < (int)sizeof(script) - 1; k += 2) {
        int w = script[k + 1] - '0';
        if(script[k] == '-') {
            CHECK(vp_tag_del(7, ix[w]) == 0, "a tag can be deleted");
            CHECK(vp_tag_del(7, ix[w]) < 0, "a tag cannot be deleted twice");
            old[nold++] = ix[w]; count--;
#ifdef STATUS
            desc(3, ix[w], names[w]);
#endif
            ix[w] = -1;
        } else {
            int32_t r = vp_tag_add(7, names[w], DAX_BYTE, 2, 0);
            if(ix[w] >= 0) CHECK(r == ix[w], "an existing name is the existing tag");
            else {
                uint8_t x[2];
                CHECK(r == last + 1, "a new tag gets the next index, never one used before");
                last++; count++; ix[w] = r;
                if(last >= dbsize) dbsize *= 2;
                CHECK(vp_rd(7, r, 0, x, 2) == 0 && x[0] == 0 && x[1] == 0, "a new tag reads as zero");
                x[0] = IN.d[0] + w; x[1] = IN.d[1];
                CHECK(vp_wr(7, r, 0, x, 2) == 0, "a new tag can be written");
#ifdef STATUS
                desc(2, r, names[w]);
#endif
            }
        }
#ifdef STATUS
        status();
#endif
    }
#ifndef STATUS
    ASSUME(IN.q[0] != '_');
    get_name(IN.q, QL);
    ASSUME(IN.qi < 0 || IN.qi >= FIRST);
    get_index(IN.qi);
    for(int j = 0; j < NN; j++) if(ix[j] >= 0) { uint8_t x[2]; tag_read(7, ix[j], 0, x, 2); CHECK(x[0] == (uint8_t)(IN.d[0] + j) && x[1] == IN.d[1], "other tags keep their value"); }
#else
    { uint8_t b[8]; CHECK(vp_rd(8, 5, 0, b, 8) == 0 && vp_get32(b) == 1000000 && vp_get32(b + 4) == 0, "_starttime is the time the server started"); }
#endif
    COVER("end");
}
