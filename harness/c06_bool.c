/* C06: CHANGE, SET, RESET and WRITE events on a range of bits, any history of W writes. */
#include "srv_ops.h"
#define N 3
struct wr { int32_t off; uint8_t how, d, m, d2; };
VP_INPUTS { uint8_t init[N]; struct wr w[W]; };
#include "vp_main.h"
static int bitof(const uint8_t *p, int n) { return (p[n / 8] >> (n % 8)) & 1; }
void vp_main(void) {
    int32_t t, se, re, ch, wr;
    uint8_t raw[N], old[N], fs[24] = {0}, fr[24] = {0};
    const int B0 = BYTEOFF * 8 + BIT, SIZE = (BIT + COUNT - 1) / 8 + 1;

    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", DAX_BOOL, 20, 0);
    for(int i = 0; i < N; i++) raw[i] = IN.init[i];
    tag_write(7, t, 0, raw, N);
    ch = vp_evnt_add(7, t, BYTEOFF, COUNT, DAX_BOOL, EVENT_CHANGE, SIZE, BIT, NULL, 0);
    se = vp_evnt_add(7, t, BYTEOFF, COUNT, DAX_BOOL, EVENT_SET, SIZE, BIT, NULL, 0);
    re = vp_evnt_add(7, t, BYTEOFF, COUNT, DAX_BOOL, EVENT_RESET, SIZE, BIT, NULL, 0);
    wr = vp_evnt_add(7, t, BYTEOFF, COUNT, DAX_BOOL, EVENT_WRITE, SIZE, BIT, NULL, 0);
    CHECK(ch > 0 && se > 0 && re > 0 && wr > 0 && ch < VP_NEVT && se < VP_NEVT && re < VP_NEVT && wr < VP_NEVT, "events can be added");
    CHECK(vp_evnt_add(7, t, BYTEOFF, COUNT, DAX_BOOL, EVENT_GREATER, SIZE, BIT, raw, 1) < 0, "no GREATER event for BOOLs");
    for(int k = 0; k < W; k++) {
        struct wr *w = &IN.w[k];
        int xs = 0, xr = 0, xc = 0, hit;
        for(int i = 0; i < N; i++) old[i] = raw[i];
        ASSUME(w->off >= 0 && w->off < N && w->how < 3);
        vp_evt_reset();
        if(w->how == 0) { CHECK(vp_wr(8, t, w->off, &w->d, 1) >= 0, "write accepted"); raw[w->off] = w->d; }
        else if(w->how == 1) { CHECK(vp_mwr(8, t, w->off, &w->d, &w->m, 1) >= 0, "masked write accepted"); raw[w->off] = (w->d & w->m) | (raw[w->off] & ~w->m); }
        else { uint8_t d[2]; ASSUME(w->off < N - 1); d[0] = w->d; d[1] = w->d2; CHECK(vp_wr(8, t, w->off, d, 2) >= 0, "write accepted"); raw[w->off] = d[0]; raw[w->off + 1] = d[1]; }
        hit = w->off < BYTEOFF + SIZE && w->off + (w->how == 2 ? 2 : 1) > BYTEOFF;
        for(int i = B0; i < B0 + COUNT; i++) {
            int b = bitof(raw, i);
            xc |= b != bitof(old, i);
            if(hit) {
                if(b) { xs |= !fs[i]; fs[i] = 1; fr[i] = 0; }
                else { xr |= !fr[i]; fr[i] = 1; fs[i] = 0; }
            }
        }
        CHECK(vp_evt_bad == 0, "notifications carry the id of a subscription");
        CHECK(vp_evt_count[wr] == hit, "WRITE fires once for every write that touches its data");
        CHECK(vp_evt_count[ch] == xc, "CHANGE fires exactly when one of its bits changes");
        CHECK(vp_evt_count[se] == xs, "SET fires exactly when one of its bits becomes set");
        CHECK(vp_evt_count[re] == xr, "RESET fires exactly when one of its bits becomes reset");
        CHECK(vp_evt_total == hit + xc + xs + xr, "no other notifications");
        if(xc && !xs) COVER("change without set");
        if(hit && !xc) COVER("write without change");
    }
}
