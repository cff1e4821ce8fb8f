/* C20: one call of the client library: one request that says what the caller asked for, and the answer of the server is what the caller gets */
#include "lib_srv.h"
VP_INPUTS { uint8_t kind, data[MAXN + 1], reply[64]; int32_t idx, byte, count, id, err; uint32_t size, type, attr, wrong; uint8_t bit; };
#include "vp_main.h"
#ifndef KIND
# define KINDS 3
# define ERR IN.err
# define WRONG IN.wrong
# define KIND IN.kind
#else
# define ERR (-9)
# define WRONG (MSG_CDT_GET + MSG_CDT_CREATE - excmd | 0x01000000u)
#endif
#ifndef N
# define N 4
#endif
static uint8_t ex[200], care[200]; /* the request that is expected */
static int exn, exmin, want = 1;
static uint8_t rp[200], er[200]; static unsigned rn; /* the answer */
static unsigned excmd;
static void put(int at, const void *p, int n) { for(int i = 0; i < n; i++) { ex[at + i] = ((const uint8_t *)p)[i]; care[at + i] = 0xFF; } if(at + n > exmin) exmin = at + n; }
static void put4(int at, uint32_t v) { put(at, &v, 4); }
static void put1(int at, uint8_t v) { put(at, &v, 1); }
static void vp_request(void) {
    CHECK(vp_nreq == 1, "one request");
    CHECK(vp_cmd == excmd, "the request is of the right kind");
    CHECK((int)vp_len >= exmin && (exn == 0 || (int)vp_len == exn), "the request is complete");
    for(int i = 0; i < exmin; i++) CHECK((vp_pay[i] & care[i]) == ex[i], "the request says what was asked for");
    if(KIND == 3) return;
    vp_reply_t(KIND == 0 ? excmd | 0x01000000u : KIND == 1 ? excmd | 0x02000000u : WRONG, KIND == 1 ? er : rp, rn);
}
static int bitof(const uint8_t *p, unsigned i) { return p[i / 8] >> (i % 8) & 1; }
static void rp4(int at, uint32_t v) { memcpy(rp + at, &v, 4); }
static void cb(dax_state *s, void *u) { }
#ifdef REFUSED
# define REFUSE() do { CHECK(r != 0 && vp_nreq == 0, "the call is refused"); } while(0)
#else
# define REFUSE() do { } while(0)
#endif
void vp_main(void) {
    int r = 0; uint8_t data[MAXN + 1];
    tag_handle h;
    h.index = IN.idx; h.byte = IN.byte; h.count = IN.count; h.type = IN.type; h.size = IN.size; h.bit = IN.bit;
    memcpy(data, IN.data, sizeof data);
    ASSUME(KIND <= 3 && ERR < 0);
    { int32_t e = ERR; memcpy(er, &e, 4); }
    vp_lib_init();
#define WELL(c, reply) do { unsigned cmd = (c); excmd = cmd; rn = (reply); ASSUME(WRONG != (cmd | 0x01000000u) && WRONG != (cmd | 0x02000000u)); if(rn < 4) rn = 4; } while(0)
#if CALL == 1 /* dax_tag_add */
    { static const char name[] = NAME; tag_handle g; tag_type t = TTYPE; uint8_t sz = t == DAX_BOOL ? 1 : 1 << ((t & 15) - 3);
    ASSUME(IN.count > 0 && IN.count <= 1000000);
    put4(0, t); put4(4, IN.count); put4(8, IN.attr); put(12, name, sizeof name); exn = 12 + sizeof name;
    rp4(0, IN.idx); WELL(MSG_TAG_ADD, 4);
    memset(&g, 0x55, sizeof g);
    r = dax_tag_add(ds, &g, (char *)name, t, IN.count, IN.attr);
    REFUSE();
    if(r == 0) CHECK(g.index == IN.idx && g.byte == 0 && g.bit == 0 && (int32_t)g.count == IN.count && g.type == t && g.size == (t == DAX_BOOL ? (uint32_t)(IN.count + 7) / 8 : (uint32_t)IN.count * sz), "the handle is the whole tag"); }
#elif CALL == 2
    put4(0, IN.idx); exn = 4; rp4(0, 0); WELL(MSG_TAG_DEL, 4);
    r = dax_tag_del(ds, IN.idx);
#elif CALL == 3 || CALL == 4
    { static const char name[] = NAME; dax_tag t; 
    rp4(0, IN.idx); rp4(4, IN.type); rp4(8, IN.count); rp[12] = IN.attr; rp[13] = IN.attr >> 8; strcpy((char *)rp + 14, name);
    WELL(MSG_TAG_GET, 14 + sizeof name);
    memset(&t, 0x55, sizeof t);
    if(CALL == 3) { put1(0, TAG_GET_NAME); put(1, name, sizeof name); exn = 1 + sizeof name; r = dax_tag_byname(ds, &t, (char *)name); }
    else { put1(0, TAG_GET_INDEX); put4(1, IN.idx); exn = 5; r = dax_tag_byindex(ds, &t, IN.idx); }
    REFUSE();
    if(r == 0) CHECK(t.idx == IN.idx && t.type == IN.type && t.count == (uint32_t)IN.count && t.attr == (uint16_t)IN.attr && strcmp(t.name, name) == 0, "the tag is as the server says"); }
#elif CALL == 5 /* dax_event_add */
    { dax_id id = {77, 77}; int u; tag_type t = TTYPE; int sz = t == DAX_BOOL || IS_CUSTOM(t) ? 0 : 1 << ((t & 15) - 3);
    h.type = t;
    put4(0, IN.idx); put4(4, IN.byte); put4(8, IN.count); put4(12, t); put4(16, IN.attr); put4(20, IN.size); put1(24, IN.bit);
    put(25, IN.data, sz); exn = IS_CUSTOM(t) ? 0 : 25 + sz;
    rp4(0, IN.id); WELL(MSG_EVNT_ADD, 4);
    r = dax_event_add(ds, &h, IN.attr, data, &id, cb, &u, NULL);
    if(r == 0) CHECK(id.id == IN.id && id.index == IN.idx, "the id of the event"); }
#elif CALL == 6
    { dax_id id = {IN.idx, IN.id}; put4(0, IN.idx); put4(4, IN.id); exn = 8; rp4(0, IN.idx); rp4(4, IN.id); WELL(MSG_EVNT_DEL, 8);
    r = dax_event_del(ds, id); }
#elif CALL == 7
    { dax_id id = {IN.idx, IN.id}; put4(0, IN.idx); put4(4, IN.id); put4(8, IN.attr); exn = 12; WELL(MSG_EVNT_OPT, 0);
    r = dax_event_options(ds, id, IN.attr); }
#elif CALL == 8 /* dax_map_add */
    { dax_id id = {77, 77}; tag_handle g; g.index = IN.idx ^ IN.id; g.byte = IN.byte ^ IN.attr; g.count = IN.count ^ IN.wrong; g.type = IN.type + 1; g.size = IN.size + 3; g.bit = IN.bit + 1;
    put4(0, IN.idx); put4(4, IN.byte); put1(8, IN.bit); put4(9, IN.count); put4(13, IN.size); put4(17, IN.type);
    put4(21, g.index); put4(25, g.byte); put1(29, g.bit); put4(30, g.count); put4(34, g.size); put4(38, g.type);
    rp4(0, IN.id); WELL(MSG_MAP_ADD, 4);
    r = dax_map_add(ds, &h, &g, &id);
    if(r == 0) CHECK(id.id == IN.id && id.index == IN.idx, "the id of the mapping"); }
#elif CALL == 9 /* dax_map_get */
    { dax_id id = {IN.idx, IN.id}; tag_handle a, b, o; memset(&a, 0x55, sizeof a); b = o = a;
    put4(0, IN.idx); put4(4, IN.id); exn = 8;
    memcpy(rp, IN.reply, 42); WELL(MSG_MAP_GET, 42);
    r = dax_map_get(ds, &a, &b, id);
    if(r == 0) {
        CHECK((uint32_t)a.index == vp_gle(rp) && a.byte == vp_gle(rp + 4) && a.bit == rp[8] && a.count == vp_gle(rp + 9) && a.size == vp_gle(rp + 13) && a.type == vp_gle(rp + 17), "the source is what the server says");
        CHECK((uint32_t)b.index == vp_gle(rp + 21) && b.byte == vp_gle(rp + 25) && b.bit == rp[29] && b.count == vp_gle(rp + 30) && b.size == vp_gle(rp + 34) && b.type == vp_gle(rp + 38), "the destination is what the server says");
    } else CHECK(a.index == o.index && a.size == o.size && a.type == o.type && b.index == o.index && b.size == o.size && b.type == o.type, "no handles on an error"); }
#elif CALL == 10
    { dax_id id = {IN.idx, IN.id}; put4(0, IN.idx); put4(4, IN.id); exn = 8; rp4(0, IN.idx); WELL(MSG_MAP_DEL, 4);
    r = dax_map_del(ds, id); }
#elif CALL == 11 || CALL == 12 /* overrides of N items */
    { int sz, b0 = 0;
    h.type = TTYPE; h.count = N; h.bit = 0;
    if(TTYPE == DAX_BOOL) { ASSUME(IN.bit < 8); h.bit = b0 = BIT; sz = (b0 + N - 1) / 8 + 1; } else sz = N * (1 << ((TTYPE & 15) - 3));
    h.size = sz;
    int at = CALL == 11 ? 12 : 8;
    put4(0, IN.idx); put4(4, IN.byte); exn = CALL == 11 ? at + 2 * sz : at + sz;
    for(int i = 0; i < sz; i++) {
        uint8_t d = 0, m = 0;
        for(int k = 0; k < 8; k++) {
            int p = i * 8 + k - b0;
            if(TTYPE == DAX_BOOL ? p >= 0 && p < N : 1) { m |= 1 << k; d |= bitof(IN.data, p) << k; }
        }
        if(CALL == 11) { put1(at + i, d); care[at + i] = m; put1(at + sz + i, m); } else put1(at + i, m);
    }
    WELL(CALL == 11 ? MSG_ADD_OVRD : MSG_DEL_OVRD, 0);
    r = CALL == 11 ? dax_tag_add_override(ds, h, data) : dax_tag_del_override(ds, h);
    }
#elif CALL == 13 /* dax_tag_get_override */
    { uint8_t d[MAXN + 1], m[MAXN + 1]; memset(d, 0x55, sizeof d); memset(m, 0x55, sizeof m);
    h.size = N; put4(0, IN.idx); put4(4, IN.byte); put4(8, N); exn = 12;
    for(int i = 0; i < 2 * N; i++) rp[i] = IN.reply[i];
    WELL(MSG_GET_OVRD, 2 * N);
    r = dax_tag_get_override(ds, h, d, m);
    for(int i = 0; i < N && r == 0; i++) CHECK(d[i] == IN.reply[i] && m[i] == IN.reply[N + i], "the data and the mask are what the server says");
    CHECK(d[N] == 0x55 && m[N] == 0x55, "nothing behind the buffers"); }
#elif CALL == 14
    put4(0, IN.idx); put1(4, SET ? 0xFF : 0); exn = 5; WELL(MSG_SET_OVRD, 0);
    r = SET ? dax_tag_set_override(ds, h) : dax_tag_clr_override(ds, h);
#elif CALL == 15 /* dax_atomic_op */
    h.size = N; h.type = TTYPE;
    put4(0, IN.idx); put4(4, IN.byte); put4(8, IN.count); put4(12, TTYPE); put1(16, IN.bit); put1(17, IN.attr); put1(18, IN.attr >> 8); put(21, IN.data, N); exn = 21 + N;
    WELL(MSG_ATOMIC_OP, 0);
    r = dax_atomic_op(ds, h, data, IN.attr);
    REFUSE();
#elif CALL == 16 /* dax_cdt_create */
    { dax_cdt *c = dax_cdt_new("Ty", NULL); tag_type t = 77; const char def[] = "Ty:a,INT,1:bb,BOOL,17:c,LREAL,2";
    ASSUME(c != NULL && IN.id >= 0 && IN.id < 8);
    CHECK(dax_cdt_member(ds, c, "a", DAX_INT, 1) == 0 && dax_cdt_member(ds, c, "bb", DAX_BOOL, 17) == 0 && dax_cdt_member(ds, c, "c", DAX_LREAL, 2) == 0, "members");
    CHECK(dax_cdt_member(ds, c, "bb", DAX_INT, 1) != 0, "a member twice is refused");
    put(0, def, sizeof def); exn = sizeof def; rp4(0, CDT_TO_TYPE(3)); WELL(MSG_CDT_CREATE, 4);
    r = dax_cdt_create(ds, c, &t);
    if(r == 0) { CHECK(t == CDT_TO_TYPE(3), "the type is what the server says"); CHECK(dax_get_typesize(ds, t) == 2 + 3 + 16, "the type is known from now on"); }
    else CHECK(t == 77, "no type on an error"); }
#elif CALL == 17 /* dax_cdt_get */
    { const char def[] = "Ty:a,INT,1:bb,BOOL,17:c,LREAL,2"; tag_type t = CDT_TO_TYPE(3);
    rp4(0, t); strcpy((char *)rp + 4, def); WELL(MSG_CDT_GET, 4 + sizeof def);
    if(BYNAME) { put1(0, CDT_GET_NAME); put(1, "Ty", 3); exn = 4; r = dax_cdt_get(ds, 0, "Ty"); }
    else { put1(0, CDT_GET_TYPE); put4(1, t); exn = 5; r = dax_cdt_get(ds, t, NULL); }
    if(r == 0) { vp_nreq = 99; CHECK(dax_get_typesize(ds, t) == 2 + 3 + 16, "the type is known from now on"); CHECK(vp_nreq == 99, "known"); vp_nreq = 1; } }
#endif
    UNLOCKED();
#ifdef REFUSED
    CHECK(r != 0 && vp_nreq == 0, "the call is refused"); COVER("refused");
#else
    if(r == ERR_ALLOC && vp_nreq == 0) return;
    CHECK(vp_nreq == 1, "the server is asked");
    if(KIND == 0) { CHECK(r == 0 || r == ERR_ALLOC, "success"); }
    if(KIND == 1) { CHECK(r == ERR, "an error of the server is returned"); }
    if(KIND == 2) { CHECK(r != 0, "an answer to something else is an error"); }
    if(KIND == 3) { CHECK(r == ERR_TIMEOUT, "no answer is a timeout"); }
#if KINDS & 1
    if(r == 0) COVER("done");
#endif
#if KINDS & 2
    if(r != 0) COVER("failed");
#endif
    CHECK(DS.last_msg == NULL, "the answer is consumed");
#endif
}
