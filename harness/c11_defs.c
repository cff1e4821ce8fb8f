/* C11: a sequence of type definitions. DEFS is a list of {text, size}: size > 0: accepted and that many bytes long,
 * 0: refused; -n: accepted as the n-th definition again. Afterwards every type is looked up by name and by number. */
#include "srv_ops.h"
VP_INPUTS { int32_t off; uint32_t size; uint8_t d[4], pad; };
#include "vp_main.h"
struct def { const char *text; int size; };
static const struct def defs[] = {DEFS};
#define ND (int)(sizeof(defs) / sizeof(defs[0]))
static uint32_t type[ND];
static int len(const char *s) { int n = 0; while(s[n]) n++; return n; }
static int32_t create(const char *s) {
    char m[DAX_MSGMAX - 8];
    int n = len(s);
    for(int i = 0; i <= n; i++) m[i] = s[i];
    VP_RSP_RESET();
    vp_send(7, MSG_CDT_CREATE, m, n + 1);
    CHECK(VP_IS_RESPONSE(MSG_CDT_CREATE) || VP_IS_ERROR(MSG_CDT_CREATE), "exactly one reply");
    return vp_rsp.type == (MSG_CDT_CREATE | 0x01000000u);
}
static void same(uint32_t ty, const char *s) {
    CHECK(VP_IS_RESPONSE(MSG_CDT_GET), "a type that exists can be looked up");
    CHECK(vp_get32(vp_rsp.data) == ty, "under its number");
    CHECK(vp_rsp.size == 4u + len(s) + 1, "with its definition");
    for(int i = 0; s[i]; i++) CHECK(vp_rsp.data[4 + i] == (uint8_t)s[i], "with its definition");
    CHECK(vp_rsp.data[4 + len(s)] == 0, "with its definition");
}
void vp_main(void) {
    uint8_t q[40];
    char nm[3] = "tA";
    vp_server_start();
    vp_register(7, "m");
    for(int i = 0; i < ND; i++) {
        int ok = create(defs[i].text);
        CHECK(ok == (defs[i].size != 0), "exactly the well formed definitions of new types are accepted");
        if(defs[i].size == 0) continue;
        type[i] = vp_get32(vp_rsp.data);
        CHECK((type[i] & 0x80000000u) != 0, "a compound type has a number of its own");
        if(defs[i].size < 0) { CHECK(type[i] == type[-defs[i].size - 1], "the same definition is the same type"); continue; }
        for(int j = 0; j < i; j++) if(defs[j].size) CHECK(type[i] != type[j], "a compound type has a number of its own");
    }
    for(int i = 0; i < ND; i++) {
        int n = 0;
        q[0] = CDT_GET_NAME;
        while(defs[i].text[n] && defs[i].text[n] != ':' && n < 32) { q[1 + n] = defs[i].text[n]; n++; }
        q[1 + n] = 0;
        VP_RSP_RESET(); vp_send(7, MSG_CDT_GET, q, n + 2);
        if(defs[i].size > 0) same(type[i], defs[i].text);
#ifdef ALLNEW
        if(defs[i].size == 0) CHECK(VP_IS_ERROR(MSG_CDT_GET), "a refused definition leaves no type behind");
#endif
        if(defs[i].size <= 0) continue;
        q[0] = CDT_GET_TYPE; vp_put32(q + 1, type[i]);
        VP_RSP_RESET(); vp_send(7, MSG_CDT_GET, q, 5);
        same(type[i], defs[i].text);
        /* a tag of that type is as big as its members need */
        nm[1] = 'A' + i;
        int32_t t = vp_tag_add(7, nm, type[i], 1, 0);
        CHECK(t > 0, "tags of the type can be added");
        uint8_t b[1];
        CHECK(vp_rd(7, t, defs[i].size - 1, b, 1) == 0 && b[0] == 0, "the last byte of the type can be read");
        CHECK(vp_rd(7, t, defs[i].size, b, 1) < 0, "nothing beyond the members of the type");
        int32_t t2 = (nm[0] = 'u', vp_tag_add(7, nm, type[i], 3, 0));
        nm[0] = 't';
        CHECK(t2 > 0 && vp_rd(7, t2, 3 * defs[i].size - 1, b, 1) == 0 && vp_rd(7, t2, 3 * defs[i].size, b, 1) < 0, "an array is as big as its elements");
    }
    COVER("end");
}
