/* C06: EQUAL, GREATER, LESS, DEADBAND events (ETYPE) of items of type TY.
 * The tag has 3 items, the events cover the last two. Every history of W writes. */
#include "srv_ops.h"
#define NI 3
#define N (NI * (int)sizeof(CT))
#define SZ ((int)sizeof(CT))
struct wr { int32_t off; uint8_t d[8]; };
VP_INPUTS { CT lim, init[NI]; struct wr w[W]; };
#include "vp_main.h"

/* reference: distance in a wider type; exact for integers */
static int exceeds(CT a, CT b, CT db) {
#ifdef ISREAL
    CT d = b - a;
    return (d < 0 ? -d : d) >= db;
#else
    CT hi = a > b ? a : b, lo = a > b ? b : a;
    uint64_t d = (uint64_t)hi - (uint64_t)lo;
    if(sizeof(CT) < 8) d &= (1ull << (8 * sizeof(CT) % 64)) - 1;
    if(db < 0) return 1;
    return d >= (uint64_t)db;
#endif
}


static int hit(int et, CT v, CT last) {
    if(et == EVENT_EQUAL) return v == IN.lim;
    if(et == EVENT_GREATER) return v > IN.lim;
    if(et == EVENT_LESS) return v < IN.lim;
    return exceeds(v, last, IN.lim);
}
/* the kinds of events in this harness */
static const int ET[] = { EVENTS };
#define NE ((int)(sizeof(ET) / sizeof(ET[0])))

static void wr(int32_t t, int32_t off, const uint8_t *d, int n) {
    CHECK(vp_wr(8, t, off, d, n) == 0, "a write inside the tag is done");
}

void vp_main(void) {
    int32_t t, id[NE];
    uint8_t raw[N], lb[8];
    CT v[NI], last[NI];
    int flag[NE][NI] = {0};

#ifdef ZLOW /* values with few significant bits: the low bytes are zero */
    for(int i = 0; i < ZLOW; i++) {
        ((uint8_t *)&IN.lim)[i] = 0;
        for(int k = 0; k < NI; k++) ((uint8_t *)&IN.init[k])[i] = 0;
        for(int k = 0; k < W; k++) IN.w[k].d[i] = 0;
    }
#endif
    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", TY, NI, 0);
    memcpy(raw, IN.init, N);
    tag_write(7, t, 0, raw, N);
    memcpy(lb, &IN.lim, sizeof(CT));
    for(int e = 0; e < NE; e++) {
        id[e] = vp_evnt_add(7, t, SZ, 2, TY, ET[e], 2 * SZ, 0, lb, SZ);
        CHECK(id[e] > 0 && id[e] < VP_NEVT, "the event can be added");
        for(int k = 0; k < e; k++) CHECK(id[e] != id[k], "events have different ids");
    }
#ifdef ISREAL
    CHECK(vp_evnt_add(7, t, SZ, 2, TY, EVENT_EQUAL, 2 * SZ, 0, lb, SZ) < 0, "no EQUAL event for REALs");
#endif
    memcpy(last, IN.init, N);
    for(int k = 0; k < W; k++) {
        int lo, hi, x, any = 0;
        vp_evt_reset();
#ifdef ANYOFF
        lo = IN.w[k].off; hi = lo + PART;
        ASSUME(lo >= 0 && lo <= N - PART);
        wr(t, lo, IN.w[k].d, PART);
#else
        ASSUME(IN.w[k].off >= 0 && IN.w[k].off < NI);
        lo = IN.w[k].off * SZ; hi = lo + SZ;
        if(IN.w[k].off == 0) wr(t, 0, IN.w[k].d, SZ);
        else if(IN.w[k].off == 1) wr(t, SZ, IN.w[k].d, SZ);
        else wr(t, 2 * SZ, IN.w[k].d, SZ);
#endif
        for(int i = 0; i < N; i++) if(i >= lo && i < hi) raw[i] = IN.w[k].d[i - lo];
        memcpy(v, raw, N);
        for(int e = 0; e < NE; e++) {
            x = 0;
            for(int i = 1; i < NI; i++) if(lo < (i + 1) * SZ && hi > i * SZ) {
                int h = hit(ET[e], v[i], last[i]);
                if(ET[e] == EVENT_DEADBAND) { if(h) { x = 1; last[i] = v[i]; } }
                else { if(h) x |= !flag[e][i]; flag[e][i] = h; }
            }
            CHECK(vp_evt_count[id[e]] == x, "the event fires exactly when an item comes to meet its condition");
            any += x;
        }
        CHECK(vp_evt_bad == 0 && vp_evt_total == any, "no other notifications");
        if(any) CHECK(vp_evt.fd == 7 && vp_evt.size == 8 && vp_evt.len == 16, "notifications go to the subscriber");
        if(any && k == W - 1) COVER("fires");
        if(!any && hi > SZ && k == W - 1) COVER("touched without firing");
    }
}
