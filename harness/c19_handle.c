/* C19: the handles for the NAMES of parts of a tag of any size: exactly the data that the name says, or an error */
#include "lib_srv.h"
VP_INPUTS { uint32_t tcount; int32_t count; };
#include "vp_main.h"
struct mem { const char *name; tag_type type; int count; };
static const struct { const char *def; int n; struct mem m[5]; } ty[] = {
    {"Ta:a,BOOL,3:b,INT,4:c,BOOL,1:d,BOOL,12:e,Tb,3", 5, {{"a", DAX_BOOL, 3}, {"b", DAX_INT, 4}, {"c", DAX_BOOL, 1}, {"d", DAX_BOOL, 12}, {"e", CDT_TO_TYPE(3), 3}}},
    {"Tb:x,BOOL,9:y,DINT,1:z,Tc,2:w,BYTE,1", 4, {{"x", DAX_BOOL, 9}, {"y", DAX_DINT, 1}, {"z", CDT_TO_TYPE(4), 2}, {"w", DAX_BYTE, 1}}},
    {"Tc:p,BOOL,1:q,LREAL,1:r,BOOL,300:s,BOOL,5:t,TIME,2", 5, {{"p", DAX_BOOL, 1}, {"q", DAX_LREAL, 1}, {"r", DAX_BOOL, 300}, {"s", DAX_BOOL, 5}, {"t", DAX_TIME, 2}}},
};
static const struct mem *find(tag_type t, char name) { for(int i = 0; i < ty[t - CDT_TO_TYPE(2)].n; i++) if(ty[t - CDT_TO_TYPE(2)].m[i].name[0] == name) return &ty[t - CDT_TO_TYPE(2)].m[i]; return NULL; }
static unsigned bits(tag_type t, char upto);
static unsigned bytes(tag_type t) {
    return t >= CDT_TO_TYPE(2) ? (bits(t, 0) + 7) / 8 : t == DAX_BOOL ? 1 : 1u << ((t & 15) - 3);
}
/* where member 'upto' starts, or where the last one ends */
static unsigned bits(tag_type t, char upto) {
    unsigned p = 0;
    for(int i = 0; i < ty[t - CDT_TO_TYPE(2)].n; i++) {
        const struct mem *m = &ty[t - CDT_TO_TYPE(2)].m[i];
        if(m->type != DAX_BOOL) p = (p + 7) / 8 * 8;
        if(m->name[0] == upto) return p;
        p += m->type == DAX_BOOL ? m->count : m->count * bytes(m->type) * 8;
    }
    return p;
}
static void vp_request(void) {
    if(vp_cmd == MSG_TAG_GET && vp_pay[0] == TAG_GET_NAME && vp_pay[1] == 'T' && vp_pay[2] == 0) {
        uint8_t r[16] = {5}; uint32_t t = TTYPE, c = IN.tcount;
        memcpy(r + 4, &t, 4); memcpy(r + 8, &c, 4); r[12] = r[13] = 0; r[14] = 'T'; r[15] = 0;
        vp_reply(r, 16);
    } else vp_error(ERR_NOTFOUND);
}
static int found, refused;
static void one(const char *name) {
    static char s[32];
    tag_handle h;
    int n, r, bad = 0;
    unsigned o = 0; /* in bits */
    tag_type t = TTYPE; int64_t cnt = IN.tcount, ix = -1;
    strcpy(s, name);
    /* what the name says */
    for(unsigned i = 1; name[i];) {
        if(name[i] == '[') {
            ix = 0;
            for(i++; name[i] != ']'; i++) ix = ix * 10 + (s[i] - '0');
            i++;
            if(ix >= cnt) bad = 1;
            o += t != DAX_BOOL ? ix * bytes(t) * 8 : ix;
        } else if(name[i] == '.' && name[i + 1] <= '9') {
            int64_t b = 0;
            if(ix < 0 && cnt > 1) bad = 1;
            for(i++; name[i]; i++) b = b * 10 + (s[i] - '0');
            if(t == DAX_BOOL || t == DAX_TIME || t == DAX_REAL || t == DAX_LREAL || t >= CDT_TO_TYPE(2)) bad = 1;
            else { cnt = bytes(t) * 8; t = DAX_BOOL; ix = b; if(b >= cnt) bad = 1; else o += b; }
        } else { /* .member */
            const struct mem *m;
            i++;
            if(ix < 0 && cnt > 1) bad = 1;
            if(t < CDT_TO_TYPE(2) || (m = find(t, name[i])) == NULL || (name[i + 1] && name[i + 1] != '.' && name[i + 1] != '[')) { bad = 1; break; }
            o += bits(t, name[i]);
            t = m->type; cnt = m->count; ix = -1;
            i++;
        }
    }
    memset(&h, 0x55, sizeof h);
    r = dax_tag_handle(ds, &h, s, IN.count); UNLOCKED();
    if(IN.count < 0 || IN.count > (ix < 0 ? cnt : cnt - ix)) bad = 1;
    if(bad) { CHECK(r != 0, "a name of data that does not exist is refused"); refused = 1; return; }
    n = IN.count ? IN.count : ix < 0 ? cnt : 1;
    CHECK(r == 0, "a handle is given");
    CHECK(h.index == 5 && h.type == t, "the handle is of the tag and the type");
    CHECK(h.byte == o / 8 && h.bit == o % 8, "the handle starts where the data starts");
    CHECK((int)h.count == n, "the handle is for the items asked for");
    CHECK(h.size == (t == DAX_BOOL ? (o % 8 + n - 1) / 8 + 1 : n * bytes(t)), "the handle is as long as the data");
    found = 1;
}
void vp_main(void) {
    dax_tag tag;
    static const char *const names[] = {NAMES};
    ASSUME(IN.tcount >= 1 && IN.tcount <= 100000);
    vp_lib_init();
    for(int i = 2; i >= 0; i--) { char c[80]; strcpy(c, ty[i].def); CHECK(add_cdt_to_cache(ds, CDT_TO_TYPE(2 + i), c) == 0, "type"); }
    CHECK(dax_tag_byname(ds, &tag, "T") == 0, "tag"); UNLOCKED(); /* known to the client from now on */
    for(unsigned i = 0; i < sizeof names / sizeof *names; i++) one(names[i]);
    if(found) COVER("found");
    if(refused) COVER("refused");
}
