/* C13: a server that starts with a retention database has the retained tags with their data */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[3][18], w[6]; int32_t off; };
#include "vp_main.h"
#include "sqlite_stub.h"
static void seed(int i, int id, const char *name, const char *type, int count, int size, const uint8_t *d) {
    sq_tags[i].used = 1; sq_tags[i].id = id; sq_tags[i].count = count; sq_cpy(sq_tags[i].name, name, 34); sq_cpy(sq_tags[i].type, type, 34);
    sq_store(&sq_tags[i], d, size);
}
static int32_t look(const char *name, uint32_t type, uint32_t count) {
    uint8_t m[34] = {TAG_GET_NAME};
    int l = 0;
    while(name[l]) { m[1 + l] = name[l]; l++; }
    VP_RSP_RESET();
    vp_send(7, MSG_TAG_GET, m, l + 2);
    CHECK(VP_IS_RESPONSE(MSG_TAG_GET), "a retained tag exists after the start");
    CHECK(vp_get32(vp_rsp.data + 4) == type && vp_get32(vp_rsp.data + 8) == count, "with its type and count");
    return vp_get32(vp_rsp.data);
}
static void data(int32_t idx, const uint8_t *d, int have, int size) {
    uint8_t x[18];
    CHECK(vp_rd(7, idx, 0, x, size) == 0, "read");
    for(int i = 0; i < size; i++) CHECK(x[i] == (i < have ? d[i] : 0), "with the data that was saved");
}
void vp_main(void) {
    int32_t t, v, w;
    vp_server_start();
    sq_have_tables = 1; sq_nextid = 9;
    seed(0, 2, "T", "DINT", 2, SAVED, SAVED ? IN.d[0] : NULL);
    seed(2, 5, "V", "BOOL", 13, 2, IN.d[1]);
    seed(3, 8, "W", "Ty", 2, 18, IN.d[2]);
    sq_types[1].used = 1; sq_types[1].id = 3; sq_cpy(sq_types[1].name, "Ty", 34); sq_cpy(sq_types[1].def, "Ty:a,BOOL,5:b,LREAL,1", 64);
    ret_init(NULL);
    vp_register(7, "m");
    int32_t it = look("T", DAX_DINT, 2), iv = look("V", DAX_BOOL, 13), iw = look("W", 0x80000000u + CDT, 2);
    CHECK(it == 11 && iv == 12 && iw == 13, "retained tags come first");
    t = 11; v = 12; w = 13;
    data(t, IN.d[0], SAVED > 8 ? 8 : SAVED, 8); data(v, IN.d[1], 2, 2); data(w, IN.d[2], 18, 18);
    /* a module that adds the tag as usual gets the old data, which are retained again */
    CHECK(tag_add(7, "V", DAX_BOOL, 13, TAG_ATTR_RETAIN) == v && tag_add(7, "W", 0x80000000u + CDT, 2, TAG_ATTR_RETAIN) == w, "added again");
    data(v, IN.d[1], 2, 2); data(w, IN.d[2], 18, 18);
    CHECK(sq_count() == 2 && sq_find("V") == &sq_tags[0] && sq_find("W") == &sq_tags[1], "the tags are in the new database");
    CHECK(vp_wr(7, v, 1, IN.w, 1) == 0 && vp_wr(7, w, 3, IN.w, 6) == 0, "written");
    CHECK(sq_eq(sq_tags[0].type, "BOOL") && sq_tags[0].count == 13 && sq_tags[0].size == 2 && sq_tags[0].data[0] == IN.d[1][0] && sq_tags[0].data[1] == IN.w[0], "with their data");
    CHECK(sq_eq(sq_tags[1].type, "Ty") && sq_tags[1].count == 2 && sq_tags[1].size == 18, "with their type");
    for(int i = 0; i < 18; i++) CHECK(sq_tags[1].data[i] == (i >= 3 && i < 9 ? IN.w[i - 3] : IN.d[2][i]), "with their data");
    int ty = 0;
    for(int i = 0; i < 3; i++) if(sq_types[i].used) { ty++; CHECK(sq_eq(sq_types[i].name, "Ty") && sq_eq(sq_types[i].def, "Ty:a,BOOL,5:b,LREAL,1"), "with the definition of their type"); }
    CHECK(ty == 1, "with the definition of their type");
    COVER("end");
}
