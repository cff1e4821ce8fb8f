/* C07: any history of K requests that delete or change event subscriptions or write the tag */
#include "srv_ops.h"
struct op { uint8_t kind, fd, data; int32_t id; uint32_t opt; };
VP_INPUTS { struct op o[K]; };
#include "vp_main.h"
#define NE 3
void vp_main(void) {
    int32_t t, u, id[NE], x, alive[VP_NEVT] = {0}, owner[VP_NEVT] = {0}, opt[VP_NEVT] = {0};
    uint8_t d[2] = {1, 2};
    vp_server_start();
    vp_register(7, "m"); vp_register(8, "n");
    t = tag_add(7, "T", DAX_BYTE, 2, 0);
    u = tag_add(7, "U", DAX_BYTE, 2, 0);
    for(int i = 0; i < NE; i++) {
        id[i] = vp_evnt_add(i == 1 ? 8 : 7, t, 0, 2, DAX_BYTE, EVENT_WRITE, 2, 0, NULL, 0);
        CHECK(id[i] > 0 && id[i] < VP_NEVT && !alive[id[i]], "a new subscription gets an id of its own");
        alive[id[i]] = 1; owner[id[i]] = i == 1 ? 8 : 7;
    }
    x = vp_evnt_add(8, u, 0, 2, DAX_BYTE, EVENT_WRITE, 2, 0, NULL, 0);
    CHECK(x > 0 && x < VP_NEVT, "another tag's event");
    for(int k = 0; k < K; k++) {
        struct op *o = &IN.o[k];
        int fd = o->fd ? 8 : 7, known = o->id > 0 && o->id < VP_NEVT && alive[o->id > 0 && o->id < VP_NEVT ? o->id : 0];
        int32_t r;
        vp_evt_reset();
        ASSUME(o->kind < 3);
        if(o->kind == 0) {
            r = vp_evnt_del(fd, t, o->id);
            CHECK((r >= 0) == (known && owner[o->id] == fd), "exactly the module that made a subscription can delete it");
            if(r >= 0) { alive[o->id] = 0; COVER("deleted"); } else if(known) COVER("not the owner");
            CHECK(vp_evt_total == 0, "no notification");
        } else if(o->kind == 1) {
            r = vp_evnt_opt(fd, t, o->id, o->opt & 1);
            CHECK((r >= 0) == (known && owner[o->id] == fd), "exactly the module that made a subscription can change its options");
            if(r >= 0) opt[o->id] = o->opt & 1;
            CHECK(vp_evt_total == 0, "no notification");
        } else {
            int n = 0;
            d[0] = o->data;
            CHECK(vp_wr(fd, t, 0, d, 2) == 0, "written");
            for(int i = 1; i < VP_NEVT; i++) {
                n += alive[i];
                CHECK(vp_evt_count[i] == alive[i], "every live subscription is notified once and no other");
                if(alive[i]) CHECK(vp_evt_fd[i] == owner[i] && vp_evt_tag[i] == t, "the subscriber is notified");
            }
            CHECK(vp_evt_total == n && vp_evt_bad == 0, "no other notifications");
            if(n < NE) COVER("write after delete");
        }
    }
    vp_evt_reset();
    CHECK(vp_wr(7, u, 0, d, 2) == 0 && vp_evt_total == 1 && vp_evt_count[x] == 1 && vp_evt_fd[x] == 8 && vp_evt_tag[x] == u, "subscriptions of other tags are not affected");
    x = vp_evnt_add(7, t, 0, 2, DAX_BYTE, EVENT_WRITE, 2, 0, NULL, 0);
    CHECK(x > 0, "subscriptions can still be added");
    if(x < VP_NEVT) CHECK(!alive[x], "a new subscription gets an id of its own");
}
