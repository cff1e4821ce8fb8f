/* C06: one event that covers many items */
#include "srv_ops.h"
#define N 18
struct wr { uint8_t off, d[2]; };
VP_INPUTS { uint8_t lim, init[N]; struct wr w[W]; };
#include "vp_main.h"
void vp_main(void) {
    int32_t t, id;
    uint8_t raw[N], last[N], flag[N] = {0};
    vp_server_start();
    vp_register(7, "m");
    t = tag_add(7, "T", DAX_BYTE, N, 0);
    for(int i = 0; i < N; i++) last[i] = raw[i] = IN.init[i];
    tag_write(7, t, 0, raw, N);
    id = vp_evnt_add(7, t, 1, N - 1, DAX_BYTE, ETYPE, N - 1, 0, ETYPE == EVENT_CHANGE ? NULL : &IN.lim, ETYPE == EVENT_CHANGE ? 0 : 1);
    CHECK(id > 0 && id < VP_NEVT, "the event can be added");
    for(int k = 0; k < W; k++) {
        int x = 0;
        uint8_t o = IN.w[k].off;
        ASSUME(o <= N - 2);
        vp_evt_reset();
        CHECK(vp_wr(8, t, o, IN.w[k].d, 2) == 0, "written");
        for(int i = 1; i < N; i++) if(i == o || i == o + 1) {
            uint8_t v = IN.w[k].d[i - o];
            int d = (int)v - last[i];
            if(ETYPE == EVENT_CHANGE) { x |= raw[i] != v; }
            else if(ETYPE == EVENT_GREATER) { if(v > IN.lim) x |= !flag[i]; flag[i] = v > IN.lim; }
            else if((d < 0 ? -d : d) >= IN.lim) { x = 1; last[i] = v; }
            raw[i] = v;
        }
        CHECK(vp_evt_count[id] == x && vp_evt_total == x, "the event fires exactly when an item comes to meet its condition");
        if(x && k == W - 1) COVER("fires");
        if(!x && o > 1 && k == W - 1) COVER("touched without firing");
    }
}
