/* C13: what is in the retention database when tags are deleted, grow, are added again or change owner of their name */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[4][6]; };
#include "vp_main.h"
#include "sqlite_stub.h"
static void row(const char *name, const char *type, int count, const uint8_t *d, int size) {
    struct sq_row *r = sq_find(name);
    CHECK(r != NULL, "a retained tag is in the database");
    if(r == NULL) return;
    CHECK(sq_eq(r->type, type) && r->count == count && r->size == size && !r->isnull, "with its type and count");
    for(int i = 0; i < size; i++) CHECK(r->data[i] == d[i], "and its current data");
}
void vp_main(void) {
    int32_t t, u, v, w;
    uint8_t grown[8] = {0};
    vp_server_start();
    ret_init(NULL);
    vp_register(7, "m"); vp_register(8, "n");
    t = tag_add(7, "T", DAX_INT, 2, TAG_ATTR_RETAIN);
    u = tag_add(7, "U", DAX_BYTE, 4, 0);
    v = tag_add(8, "V", DAX_BOOL, 13, TAG_ATTR_RETAIN);
    CHECK(vp_wr(7, t, 0, IN.d[0], 4) == 0 && vp_wr(7, u, 0, IN.d[1], 4) == 0 && vp_wr(7, v, 0, IN.d[2], 2) == 0, "written");
    row("T", "INT", 2, IN.d[0], 4); row("V", "BOOL", 13, IN.d[2], 2); CHECK(sq_count() == 2, "exactly the retained tags");
    /* a tag that gets retained later starts with its current data */
    CHECK(tag_add(8, "U", DAX_BYTE, 4, TAG_ATTR_RETAIN) == u, "added again");
    row("U", "BYTE", 4, IN.d[1], 4);
    /* adding it again changes nothing */
    CHECK(tag_add(8, "T", DAX_INT, 1, 0) == t && tag_add(8, "T", DAX_INT, 2, TAG_ATTR_RETAIN) == t, "added again");
    row("T", "INT", 2, IN.d[0], 4); CHECK(sq_count() == 3, "exactly the retained tags");
    /* growing */
    CHECK(tag_add(7, "T", DAX_INT, 4, GROWATTR) == t, "a tag can grow");
    for(int i = 0; i < 4; i++) grown[i] = IN.d[0][i];
    row("T", "INT", 4, grown, 8);
    CHECK(vp_wr(7, t, 2, IN.d[3], 6) == 0, "written");
    for(int i = 0; i < 6; i++) grown[2 + i] = IN.d[3][i];
    row("T", "INT", 4, grown, 8); row("V", "BOOL", 13, IN.d[2], 2); row("U", "BYTE", 4, IN.d[1], 4); CHECK(sq_count() == 3, "exactly the retained tags");
    /* deleting */
    CHECK(vp_tag_del(8, DEL) == 0, "deleted");
    if((DEL) != t) row("T", "INT", 4, grown, 8);
    if((DEL) != u) row("U", "BYTE", 4, IN.d[1], 4);
    if((DEL) != v) row("V", "BOOL", 13, IN.d[2], 2);
    CHECK(sq_count() == 2, "a deleted tag is not retained");
    w = tag_add(7, (DEL) == t ? "T" : (DEL) == u ? "U" : "V", DAX_BYTE, 2, 0);
    CHECK(w > 0 && vp_wr(7, w, 0, IN.d[3], 2) == 0 && sq_count() == 2, "a new tag of the same name is not retained");
    if((DEL) != t) { CHECK(vp_wr(7, t, 0, IN.d[1], 2) == 0, "written"); grown[0] = IN.d[1][0]; grown[1] = IN.d[1][1]; row("T", "INT", 4, grown, 8); }
    else { CHECK(vp_wr(7, v, 1, IN.d[1], 1) == 0, "written"); IN.d[2][1] = IN.d[1][0]; row("V", "BOOL", 13, IN.d[2], 2); }
    COVER("end");
}
