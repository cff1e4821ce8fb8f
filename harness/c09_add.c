/* C09: adding tags: illegal requests, existing names, growing */
#include "srv_ops.h"
VP_INPUTS { char n[3]; uint32_t type, count, attr; uint8_t d[4], e[2], kind; };
#include "vp_main.h"
static int letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int32_t add(int fd, const char *n, uint32_t type, uint32_t count, uint32_t attr) {
    uint8_t m[16];
    vp_put32(m, type); vp_put32(m + 4, count); vp_put32(m + 8, attr);
    m[12] = n[0]; m[13] = n[1]; m[14] = n[2]; m[15] = 0;
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_ADD, m, 16);
    return vp_result(MSG_TAG_ADD);
}
static void get(int32_t idx, uint32_t type, uint32_t count) {
    uint8_t m[5];
    m[0] = TAG_GET_INDEX; vp_put32(m + 1, idx);
    VP_RSP_RESET();
    vp_send(8, MSG_TAG_GET, m, 5);
    CHECK(VP_IS_RESPONSE(MSG_TAG_GET) && (int32_t)vp_get32(vp_rsp.data) == idx && vp_get32(vp_rsp.data + 4) == type && vp_get32(vp_rsp.data + 8) == count, "the tag has the type and count it should have");
}
void vp_main(void) {
    int32_t a, t, b;
    uint8_t x[8];
    vp_server_start();
#if CASE == 0 /* any illegal name */
    int end = 0, ok = letter(IN.n[0]);
    for(int i = 1; i < 3; i++) { if(IN.n[i] == 0) end = 1; if(!end && !(letter(IN.n[i]) || IN.n[i] == '_' || (IN.n[i] >= '0' && IN.n[i] <= '9'))) ok = 0; }
    ASSUME(!ok);
    VP_NOALLOC();
    CHECK(add(7, IN.n, DAX_BYTE, 1, 0) < 0, "an illegal name is refused");
    COVER("refused");
#elif CASE == 1 /* types that do not exist, counts that are impossible */
    { int known = 0; static const uint32_t ty[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_TIME, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_LREAL};
      for(int i = 0; i < 16; i++) if((IN.type & ~(uint32_t)DAX_QUEUE) == ty[i]) known = 1;
      if(((IN.type & ~(uint32_t)DAX_QUEUE) & DAX_CUSTOM) && (IN.type & 0x3FFFFFFF) < 2) known = 1; /* the two built in compound types */
      ASSUME(IN.kind ? !known : (IN.type == DAX_LINT || IN.type == DAX_INT));
      ASSUME(IN.kind || IN.count == 0 || (uint64_t)IN.count * (IN.type == DAX_INT ? 2 : 8) > 0x7FFFFFFF); }
    VP_NOALLOC();
    CHECK(add(7, "tag", IN.type, IN.count, IN.attr) < 0, "a type that does not exist or an impossible count is refused");
    if(IN.kind) COVER("type"); else COVER("count");
#else
    a = add(7, "aaa", DAX_BYTE, 4, 0);
    t = add(7, "ttt", DAX_INT, 2, 0);
    b = add(7, "zzz", DAX_BYTE, 4, 0);
    CHECK(vp_wr(7, a, 0, IN.d, 4) == 0 && vp_wr(7, t, 0, IN.d, 4) == 0 && vp_wr(7, b, 0, IN.d, 4) == 0, "written");
    CHECK(add(8, "ttt", DAX_INT, 2, 0) == t && add(8, "ttt", DAX_INT, 1, 0) == t, "an existing name is the existing tag");
    get(t, DAX_INT, 2);
    CHECK(add(8, "ttt", DAX_UINT, 2, 0) < 0 && add(8, "ttt", DAX_BYTE, 1, 0) < 0 && add(8, "ttt", DAX_LINT, 9, 0) < 0 && add(8, "ttt", DAX_INT | DAX_QUEUE, 2, 0) < 0, "a tag of another type is a duplicate");
    get(t, DAX_INT, 2);
    CHECK(vp_rd(8, t, 0, x, 4) == 0 && x[0] == IN.d[0] && x[1] == IN.d[1] && x[2] == IN.d[2] && x[3] == IN.d[3], "it keeps its data");
    CHECK(add(8, "ttt", DAX_INT, 4, 0) == t, "a tag can grow");
    get(t, DAX_INT, 4);
    CHECK(vp_rd(8, t, 0, x, 8) == 0 && x[0] == IN.d[0] && x[1] == IN.d[1] && x[2] == IN.d[2] && x[3] == IN.d[3], "it keeps its data when it grows");
    CHECK(x[4] == 0 && x[5] == 0 && x[6] == 0 && x[7] == 0, "the new part reads as zero");
    CHECK(vp_wr(8, t, 6, IN.e, 2) == 0, "the new part can be written");
    CHECK(vp_rd(8, t, 0, x, 8) == 0 && x[3] == IN.d[3] && x[6] == IN.e[0] && x[7] == IN.e[1], "the new part holds data");
    CHECK(vp_rd(8, a, 0, x, 4) == 0 && x[0] == IN.d[0] && x[3] == IN.d[3] && vp_rd(8, b, 0, x, 4) == 0 && x[0] == IN.d[0] && x[3] == IN.d[3], "other tags keep their data");
    { uint8_t g[47];
      tag_read(8, 2, 0, g, 47);
      CHECK((int32_t)vp_get32(g) == t && vp_get32(g + 4) == DAX_INT && vp_get32(g + 8) == 4 && g[14] == 't' && g[17] == 0, "_tag_added tells that the tag has grown"); }
    CHECK(vp_rd(8, 0, 0, x, 4) == 0 && vp_get32(x) == 14, "the number of tags has not changed");
    { int32_t o = add(7, "own", DAX_BYTE, 2, TAG_ATTR_OWNED);
      CHECK(o >= 0 && add(8, "own", DAX_BYTE, 2, 0) < 0 && add(8, "own", DAX_BYTE, 3, IN.attr & ~(uint32_t)TAG_ATTR_RETAIN) < 0, "an owned tag cannot be added by another module");
      CHECK(add(7, "own", DAX_BYTE, 2, TAG_ATTR_OWNED) == o, "but by its owner"); }
    COVER("end");
#endif
}
