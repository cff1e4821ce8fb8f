/* C04: atomic operations compute exactly the stated result on exactly the addressed bits.
 * CASE 0: BOOL ranges (OPR fixed); CASE 1: items of every other type, any operation;
 * CASE 2: any byte/count/bit/type word: refused or inside the tag */
#include "srv_ops.h"
#define N 10
VP_INPUTS { uint8_t d0[N], data[8]; uint8_t bit, count, byte, tsel; uint16_t op; uint32_t wcount; int32_t wbyte; uint8_t len; };
#include "vp_main.h"

static int bitof(const uint8_t *p, int n) { return (p[n / 8] >> (n % 8)) & 1; }
static int bop(int op, int a, int b) {
    switch(op) {
        case ATOMIC_OP_NOT: return !a;
        case ATOMIC_OP_OR: return a | b;
        case ATOMIC_OP_AND: return a & b;
        case ATOMIC_OP_NOR: return !(a | b);
        case ATOMIC_OP_NAND: return !(a & b);
        case ATOMIC_OP_XOR: return a ^ b;
        case ATOMIC_OP_XNOR: return !(a ^ b);
    }
    return a;
}

void vp_main(void) {
    int32_t t, r = 1;
    uint8_t v[N];
    vp_server_start();
#if CASE == 0
    int first, lo = BYTEOFF * 8;
    t = tag_add(7, "T", DAX_BOOL, 31, 0); /* 4 bytes */
    tag_write(7, t, 0, IN.d0, 4);
    ASSUME(IN.bit < 8 && IN.count >= 1 && IN.count <= MAXC);
    for(int b = 0; b < 8; b++) for(int c = 1; c <= MAXC; c++)
        if(IN.bit == b && IN.count == c) r = vp_atomic(7, t, BYTEOFF, c, DAX_BOOL, b, OPR, IN.data, (b + c - 1) / 8 + 1);
    tag_read(7, t, 0, v, 4);
    first = lo + IN.bit;
#if OPR == ATOMIC_OP_INC || OPR == ATOMIC_OP_DEC || OPR > ATOMIC_OP_XNOR || OPR == 0
        CHECK(r < 0, "no arithmetic on BOOLs");
        for(int i = 0; i < 4; i++) CHECK(v[i] == IN.d0[i], "a refused operation changes nothing");
        COVER("refused");
#else
        CHECK(r >= 0, "operations on a range of BOOLs inside the tag are accepted");
        for(int i = 0; i < 32; i++) {
            int old = bitof(IN.d0, i);
            if(i >= first && i < first + IN.count) CHECK(bitof(v, i) == bop(OPR, old, bitof(IN.data, i - first)), "each addressed bit gets the result of the operation");
            else CHECK(bitof(v, i) == old, "bits outside of the range keep their value");
        }
        COVER("done");
#endif
#elif CASE == 1
    static const uint32_t types[] = { DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_TIME, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_LREAL };
    static const uint8_t sizes[] = { 1, 1, 1, 2, 2, 2, 4, 4, 4, 8, 4, 8, 8, 8, 8 };
    int sz = 0, isreal = 0;
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    tag_write(7, t, 0, IN.d0, N);
    ASSUME(IN.tsel >= TLO && IN.tsel <= THI);
    for(int k = TLO; k <= THI; k++) if(IN.tsel == k) {
        r = vp_atomic(7, t, 1, 1, types[k], 0, IN.op, IN.data, sizes[k]);
        sz = sizes[k];
        isreal = types[k] == DAX_REAL || types[k] == DAX_LREAL;
    }
    tag_read(7, t, 0, v, N);
    if(r < 0) {
        for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "a refused operation changes nothing");
        CHECK(isreal ? IN.op != ATOMIC_OP_INC && IN.op != ATOMIC_OP_DEC : (IN.op < ATOMIC_OP_INC || IN.op > ATOMIC_OP_XNOR), "supported operations are accepted");
        COVER("refused");
    } else {
        CHECK(IN.op >= ATOMIC_OP_INC && IN.op <= ATOMIC_OP_XNOR, "unknown operations are refused");
        for(int i = 0; i < N; i++) if(i < 1 || i >= 1 + sz) CHECK(v[i] == IN.d0[i], "bytes outside of the item keep their value");
        if(IN.op == ATOMIC_OP_INC || IN.op == ATOMIC_OP_DEC) {
            if(sz == 4 && isreal) {
                float a, b, c; memcpy(&a, &IN.d0[1], 4); memcpy(&b, IN.data, 4); memcpy(&c, &v[1], 4);
                float e = IN.op == ATOMIC_OP_INC ? a + b : a - b;
                CHECK(c == e || (c != c && e != e), "REAL increment/decrement");
            } else if(isreal) {
                double a, b, c; memcpy(&a, &IN.d0[1], 8); memcpy(&b, IN.data, 8); memcpy(&c, &v[1], 8);
                double e = IN.op == ATOMIC_OP_INC ? a + b : a - b;
                CHECK(c == e || (c != c && e != e), "LREAL increment/decrement");
            } else {
                uint64_t a = 0, b = 0, c = 0, e, m = sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1;
                for(int i = 0; i < 8; i++) if(i < sz) { a |= (uint64_t)IN.d0[1 + i] << (8 * i); b |= (uint64_t)IN.data[i] << (8 * i); c |= (uint64_t)v[1 + i] << (8 * i); }
                e = IN.op == ATOMIC_OP_INC ? a + b : a - b;
                CHECK(c == (e & m), "increment/decrement wraps within the type");
            }
            COVER("arithmetic");
        } else {
            CHECK(!isreal, "no bitwise operations on REALs");
            for(int i = 0; i < 8; i++) if(i < sz) for(int j = 0; j < 8; j++)
                CHECK(bitof(v, 8 + 8 * i + j) == bop(IN.op, bitof(IN.d0, 8 + 8 * i + j), bitof(IN.data, 8 * i + j)), "bitwise operations");
#if TLO != 10 && TLO != 14
            COVER("bitwise");
#endif
        }
    }
#elif CASE == 2
    /* the operation is AND with zeros, or NOT for BOOL: shows which bytes are touched */
    uint8_t ones[8];
    for(int i = 0; i < 8; i++) ones[i] = 0xFF;
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    tag_write(7, t, 0, IN.d0, N);
    ASSUME(IN.len <= MAXL);
    for(int l = 0; l <= MAXL; l++) if(IN.len == l) r = vp_atomic(7, t, IN.wbyte, IN.wcount, TY, IN.bit, ATOMIC_OP_XOR, ones, l);
    tag_read(7, t, 0, v, N);
    if(r >= 0) {
        uint64_t need = TY == DAX_BOOL ? ((uint64_t)IN.bit + IN.wcount + 7) / 8 : (uint64_t)IN.wcount * TSZ;
        CHECK(IN.wcount > 0 && need <= IN.len, "the operands of the accepted items are in the message");
        CHECK(IN.wbyte >= 0 && IN.wbyte <= N - (int)need, "accepted operations lie inside the tag");
        for(int i = 0; i < N; i++) {
            if(i < IN.wbyte || i >= IN.wbyte + (int)need) CHECK(v[i] == IN.d0[i], "bytes outside of the operation keep their value");
            else if(TY != DAX_BOOL) CHECK(v[i] == (uint8_t)~IN.d0[i], "every addressed item is changed");
        }
        COVER("accepted");
    } else {
        for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "a refused operation changes nothing");
        CHECK(!(IN.bit == 0 && IN.wcount == 1 && IN.len >= TSZ && IN.wbyte >= 0 && IN.wbyte <= N - TSZ), "well formed operations are accepted");
        COVER("refused");
    }
#elif CASE == 3
    /* several items at once */
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    tag_write(7, t, 0, IN.d0, N);
    ASSUME(IN.count >= 2 && IN.count <= 3);
    if(IN.count == 2) r = vp_atomic(7, t, 1, 2, TY, 0, IN.op, IN.data, 2 * TSZ);
    else r = vp_atomic(7, t, 1, 3, TY, 0, IN.op, IN.data, 3 * TSZ);
    tag_read(7, t, 0, v, N);
    if(r < 0) {
        for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "a refused operation changes nothing");
        CHECK(IN.op <= ATOMIC_OP_DEC || IN.op > ATOMIC_OP_XNOR, "bitwise operations are accepted for several items");
        COVER("refused");
    } else {
        CHECK(IN.op >= ATOMIC_OP_INC && IN.op <= ATOMIC_OP_XNOR, "unknown operations are refused");
        for(int i = 0; i < N; i++) if(i < 1 || i >= 1 + IN.count * TSZ) CHECK(v[i] == IN.d0[i], "bytes outside of the items keep their value");
        for(int k = 0; k < 3; k++) if(k < IN.count) {
            uint32_t a = 0, b = 0, c = 0, e;
            for(int i = 0; i < TSZ; i++) { a |= (uint32_t)IN.d0[1 + k * TSZ + i] << (8 * i); b |= (uint32_t)IN.data[k * TSZ + i] << (8 * i); c |= (uint32_t)v[1 + k * TSZ + i] << (8 * i); }
            if(IN.op == ATOMIC_OP_INC) CHECK((uint16_t)c == (uint16_t)(a + b), "every item is incremented");
            else if(IN.op == ATOMIC_OP_DEC) CHECK((uint16_t)c == (uint16_t)(a - b), "every item is decremented");
            else for(int j = 0; j < 8 * TSZ; j++) CHECK((int)((c >> j) & 1) == bop(IN.op, (a >> j) & 1, (b >> j) & 1), "every item gets the result of the operation");
        }
        COVER("accepted");
    }
#endif
}
