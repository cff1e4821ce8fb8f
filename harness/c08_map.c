/* C08: a mapping copies its source to its destination with every write of the source, and changes nothing else.
 * Any history of K requests that write the source or the destination. */
#include "srv_ops.h"
#ifdef BITS
#define NS 2
#define ND 3
#else
#define NS 4
#define ND 6
#endif
struct op { uint8_t kind, off, d[2], m[2]; };
VP_INPUTS { uint8_t s0[NS], d0[ND]; struct op o[K]; int32_t id; uint8_t last[2]; };
#include "vp_main.h"
static int bitof(const uint8_t *p, int n) { return (p[n / 8] >> (n % 8)) & 1; }
static void setbit(uint8_t *p, int n, int v) { if(v) p[n / 8] |= 1 << (n % 8); else p[n / 8] &= ~(1 << (n % 8)); }
void vp_main(void) {
    int32_t s, d, u, id;
    uint8_t ms[NS], md[ND], x[8], msg[42], un[2] = {0x5a, 0xa5};
    vp_server_start();
#ifdef BITS
    s = tag_add(7, "S", DAX_BOOL, 8 * NS - 1, 0);
    d = tag_add(7, "D", DAX_BOOL, 8 * ND - 1, 0);
#else
    s = tag_add(7, "S", DAX_BYTE, NS, 0);
    d = tag_add(7, "D", DAX_BYTE, ND, 0);
#endif
    u = tag_add(7, "U", DAX_BYTE, 2, 0);
    tag_write(7, s, 0, IN.s0, NS); tag_write(7, d, 0, IN.d0, ND); tag_write(7, u, 0, un, 2);
    for(int i = 0; i < NS; i++) ms[i] = IN.s0[i];
    for(int i = 0; i < ND; i++) md[i] = IN.d0[i];
#ifdef BITS
    vp_handle(msg, s, SBYTE, SBIT, BITS, (SBIT + BITS - 1) / 8 + 1, DAX_BOOL);
    vp_handle(msg + 21, d, DBYTE, DBIT, BITS, (DBIT + BITS - 1) / 8 + 1, DAX_BOOL);
#else
    vp_handle(msg, s, SBYTE, 0, 2, 2, DAX_BYTE);
    vp_handle(msg + 21, d, DBYTE, 0, 2, 2, DAX_BYTE);
#endif
    VP_RSP_RESET();
    vp_send(7, MSG_MAP_ADD, msg, 42);
    id = vp_result(MSG_MAP_ADD);
    CHECK(id >= 0, "a mapping between parts of two tags can be added");
    for(int k = 0; k < K; k++) {
        struct op *o = &IN.o[k];
        ASSUME(o->kind < 4);
        if(o->kind == 0) { ASSUME(o->off <= NS - 1); CHECK(vp_wr(8, s, o->off, o->d, 1) == 0, "written"); ms[o->off] = o->d[0]; }
        else if(o->kind == 1) { ASSUME(o->off <= NS - 1); CHECK(vp_mwr(8, s, o->off, o->d, o->m, 1) == 0, "written"); ms[o->off] = (o->d[0] & o->m[0]) | (ms[o->off] & ~o->m[0]); }
        else if(o->kind == 2) { ASSUME(o->off <= ND - 2); CHECK(vp_wr(8, d, o->off, o->d, 2) == 0, "written"); md[o->off] = o->d[0]; md[o->off + 1] = o->d[1]; }
        else { ASSUME(o->off <= NS - 2); CHECK(vp_atomic(8, s, o->off, 2, DAX_BYTE, 0, ATOMIC_OP_XOR, o->d, 2) == 0, "done"); ms[o->off] ^= o->d[0]; ms[o->off + 1] ^= o->d[1]; }
#ifdef BITS
        if(o->kind != 2) {
            int lo = SBYTE, hi = SBYTE + (SBIT + BITS - 1) / 8 + 1;
            if(o->off < hi && o->off + (o->kind == 3 ? 2 : 1) > lo)
                for(int i = 0; i < BITS; i++) setbit(md, 8 * DBYTE + DBIT + i, bitof(ms, 8 * SBYTE + SBIT + i));
        }
#else
        if(o->kind != 2 && o->off < SBYTE + 2 && o->off + (o->kind == 3 ? 2 : 1) > SBYTE)
            for(int i = 0; i < 2; i++) md[DBYTE + i] = ms[SBYTE + i];
#endif
        if(k == K - 1 && o->kind == 0) COVER("source written");
    }
    tag_read(7, s, 0, x, NS);
    for(int i = 0; i < NS; i++) CHECK(x[i] == ms[i], "a mapping does not change its source");
    tag_read(7, d, 0, x, ND);
    for(int i = 0; i < ND; i++) CHECK(x[i] == md[i], "the destination follows the source and nothing else of it changes");
    tag_read(7, u, 0, x, 2);
    CHECK(x[0] == un[0] && x[1] == un[1], "other tags are not affected");
    /* delete it */
    vp_put32(msg, s); vp_put32(msg + 4, IN.id);
    VP_RSP_RESET();
    vp_send(8, MSG_MAP_DEL, msg, 8);
    CHECK((vp_result(MSG_MAP_DEL) >= 0) == (IN.id == id), "exactly the existing mapping can be deleted");
    tag_read(7, d, 0, md, ND);
    vp_wr(8, s, SBYTE, IN.last, 1);
    tag_read(7, d, 0, x, ND);
    if(IN.id == id) {
        for(int i = 0; i < ND; i++) CHECK(x[i] == md[i], "a deleted mapping does nothing");
        COVER("deleted");
    } else {
#ifndef BITS
        CHECK(x[DBYTE] == IN.last[0], "the mapping lives on");
#else
        for(int i = 0; i < BITS && SBIT + i < 8; i++) CHECK(bitof(x, 8 * DBYTE + DBIT + i) == bitof(IN.last, SBIT + i), "the mapping lives on");
#endif
    }
}
