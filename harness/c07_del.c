/* C07: deletion of the tag */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[2], by; };
#include "vp_main.h"
void vp_main(void) {
    int32_t t, u, e[4], v;
    vp_server_start();
    vp_register(7, "m"); vp_register(8, "n");
    t = tag_add(7, "T", DAX_BYTE, 2, 0);
    u = tag_add(7, "U", DAX_BYTE, 2, 0);
    e[0] = vp_evnt_add(7, t, 0, 2, DAX_BYTE, EVENT_WRITE, 2, 0, NULL, 0);
    e[1] = vp_evnt_add(8, t, 0, 2, DAX_BYTE, EVENT_DELETED, 2, 0, NULL, 0);
    e[2] = vp_evnt_add(7, t, 0, 1, DAX_BYTE, EVENT_DELETED, 1, 0, NULL, 0);
    e[3] = vp_evnt_add(8, u, 0, 2, DAX_BYTE, EVENT_DELETED, 2, 0, NULL, 0);
    for(int i = 0; i < 4; i++) CHECK(e[i] > 0 && e[i] < VP_NEVT, "events can be added");
    vp_evt_reset();
    CHECK(vp_tag_del(IN.by ? 7 : 8, t) == 0, "the tag is deleted");
    CHECK(vp_evt_total == 2 && vp_evt_count[e[1]] == 1 && vp_evt_count[e[2]] == 1, "exactly the subscriptions to its deletion are notified");
    CHECK(vp_evt_fd[e[1]] == 8 && vp_evt_fd[e[2]] == 7 && vp_evt_tag[e[1]] == t && vp_evt_tag[e[2]] == t, "the subscribers are notified");
    CHECK(vp_evt_kind[e[1]] == EVENT_DELETED && vp_evt_kind[e[2]] == EVENT_DELETED, "the kind of event is given");
    vp_evt_reset();
    v = vp_tag_add(7, "V", DAX_BYTE, 2, 0);
    CHECK(v >= 0 && vp_wr(8, v, 0, IN.d, 2) == 0, "tags can be added");
    CHECK(vp_wr(8, t, 0, IN.d, 2) < 0 || t == v, "the deleted tag is gone");
    CHECK(vp_tag_del(7, v) == 0, "deleted");
    CHECK(vp_evt_total == 0, "subscriptions end with their tag");
    CHECK(vp_evnt_del(7, t, e[0]) < 0, "subscriptions end with their tag");
    CHECK(vp_tag_del(7, u) == 0 && vp_evt_total == 1 && vp_evt_count[e[3]] == 1 && vp_evt_fd[e[3]] == 8, "other tags' subscriptions live on");
    if(IN.by) COVER("end");
}
