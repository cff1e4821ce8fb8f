/* C17: what a module leaves behind when it goes. Modules on 7, 8 (same name) and 9.
 * Module 7+GONE disconnects (WAY 0) or its descriptor is registered again (WAY 1). */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[4], e[4], o[2], own[2][2], st[3][8], k; };
#include "vp_main.h"
static int ready = -1, newfd;
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    for(int i = 0; i < 12; i++) if(i != ready) FD_CLR(i, r);
    return ready >= 0;
}
int vp_accept(int fd, struct sockaddr *a, socklen_t *l) { return newfd; }
static uint8_t name[3][34];
static int32_t tagof(int fd, const uint8_t *nm) { /* index of the tag with that name or -1 */
    uint8_t m[36] = {0};
    int l = 0;
    m[0] = TAG_GET_NAME;
    while(nm[l]) { m[1 + l] = nm[l]; l++; }
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_GET, m, 1 + l + 1);
    CHECK(vp_rsp_count == 1, "exactly one reply");
    return VP_IS_RESPONSE(MSG_TAG_GET) ? (int32_t)vp_get32(vp_rsp.data) : -1;
}
static int32_t group(int fd, int32_t t, int off) {
    uint8_t m[23] = {1, 0};
    vp_handle(m + 2, t, off, 0, 1, 1, DAX_BYTE);
    VP_RSP_RESET();
    vp_send(fd, MSG_GRP_ADD, m, 23);
    return vp_result(MSG_GRP_ADD);
}
static int grp(int fd, int32_t g, uint8_t *x) {
    uint8_t m[4];
    vp_put32(m, g);
    VP_RSP_RESET();
    vp_send(fd, MSG_GRP_READ, m, 4);
    CHECK(vp_rsp_count == 1, "exactly one reply");
    if(vp_rsp.type != (MSG_GRP_READ | 0x01000000u)) return 0;
    *x = vp_rsp.data[0];
    return 1;
}
static void who(int i, const char *want) { /* the name of the module's own tag */
    CHECK(vp_rd(7 + i, 10, 0, name[i], 33) == 0, "a module has a tag");
    for(int k = 0; k < 33; k++) { CHECK(name[i][k] == (uint8_t)want[k], "the module tag is named after the module"); name[i][k] = want[k]; if(want[k] == 0) break; }
}
void vp_main(void) {
    uint8_t x[12], h[24] = {0}, m[42];
    int32_t t, u, x2, o[3], mt[3], g[3], ev[3], ed;
    const int G = GONE, L = 1 - GONE; /* the one that goes, the one that stays */
    vp_server_start();
    for(int i = 0; i < 3; i++) { ready = 3; newfd = 7 + i; CHECK(msg_receive() == 0, "a connection is accepted"); }
    vp_register(7, "a"); vp_register(8, "a"); vp_register(9, "b");
    who(0, "_ma"); who(1, "_ma000"); who(2, "_mb");
    for(int i = 0; i < 3; i++) {
        mt[i] = tagof(7, name[i]);
        CHECK(mt[i] == 11 + i, "a module tag exists under the name");
        mt[i] = 11 + i;
        tag_read(-1, mt[i], 0, x, 12);
        CHECK(vp_get32(x + 8) == 7u + i, "a module tag tells the descriptor of the module");
        CHECK(x[0] == (vp_clock_ms & 255) && x[1] == (vp_clock_ms >> 8 & 255), "a module tag tells the start time");
        CHECK(vp_wr(7 + i, mt[i], 20, IN.st[i], 8) == 0, "a module can write its tag");
    }
    t = tag_add(7 + G, "T", DAX_BYTE, 4, 0);
    x2 = tag_add(7 + G, "X", DAX_BYTE, 4, 0);
    o[0] = tag_add(7, "O", DAX_BYTE, 2, TAG_ATTR_OWNED);
    o[1] = tag_add(8, "P", DAX_BYTE, 2, TAG_ATTR_OWNED | TAG_ATTR_READONLY);
    o[2] = tag_add(7 + G, "R", DAX_BYTE, 2, TAG_ATTR_OWNED | TAG_ATTR_READONLY);
    vp_handle(m, t, 0, 0, 2, 2, DAX_BYTE); vp_handle(m + 21, x2, 2, 0, 2, 2, DAX_BYTE);
    VP_RSP_RESET(); vp_send(7 + G, MSG_MAP_ADD, m, 42); CHECK(VP_IS_RESPONSE(MSG_MAP_ADD), "a mapping can be added");
    for(int i = 0; i < 3; i++) {
        g[i] = group(7 + i, t, i); CHECK(g[i] == 0, "a group can be added");
        ev[i] = vp_evnt_add(7 + i, t, 0, 4, DAX_BYTE, EVENT_WRITE, 4, 0, NULL, 0); CHECK(ev[i] == i + 1, "subscribed");
    }
    ed = vp_evnt_add(7 + L, o[G], 0, 2, DAX_BYTE, EVENT_DELETED, 2, 0, NULL, 0); CHECK(ed > 0, "subscribed");
    CHECK(vp_evnt_add(7 + G, o[L], 0, 2, DAX_BYTE, EVENT_WRITE, 2, 0, NULL, 0) > 0, "subscribed");
    CHECK(vp_evnt_add(7 + G, o[G], 0, 2, DAX_BYTE, EVENT_DELETED, 2, 0, NULL, 0) > 0, "subscribed");
    for(int i = 0; i < 2; i++) CHECK(vp_wr(7 + i, o[i], 0, IN.own[i], 2) == 0, "an owner writes its tag");
    CHECK(vp_wr(7, t, 0, IN.d, 4) == 0, "written");
    vp_evt_reset();
#if WAY == 0
    ready = 7 + G;
    CHECK(msg_receive() == 0, "a disconnect is no error");
    CHECK(vp_closed[7 + G] == 1 && vp_closed[7 + L] == 0 && vp_closed[9] == 0, "exactly the descriptor of the module is closed");
#else
    vp_register(7 + G, "c");
    CHECK(tagof(9, (const uint8_t *)"_mc") >= 0, "the new module has a tag");
#endif
    CHECK(vp_evt_total == 1 && vp_evt_count[ed] == 1 && vp_evt_fd[ed] == 7 + L && vp_evt_tag[ed] == o[G], "deletion of its tags is notified to the others");
    /* its tag and the tags it owned are gone, everything else is still there */
    CHECK(tagof(9, name[G]) == -1, "its module tag is gone");
    CHECK(tagof(9, name[L]) == mt[L] && tagof(9, name[2]) == mt[2], "the other module tags are still there");
    CHECK(tagof(9, (const uint8_t *)(G ? "P" : "O")) == -1 && tagof(9, (const uint8_t *)"R") == -1, "the tags it owned are gone");
    CHECK(tagof(9, (const uint8_t *)(G ? "O" : "P")) == o[L] && tagof(9, (const uint8_t *)"T") == t && tagof(9, (const uint8_t *)"X") == x2, "other tags are still there");
    CHECK(vp_rd(9, o[L], 0, x, 2) == 0 && x[0] == IN.own[L][0] && x[1] == IN.own[L][1], "and keep their data");
    CHECK(vp_rd(9, t, 0, x, 4) == 0, "read");
    for(int i = 0; i < 4; i++) CHECK(x[i] == IN.d[i], "and keep their data");
    for(int i = 0; i < 3; i++) if(i != G) { CHECK(vp_rd(9, mt[i], 20, x, 8) == 0, "read"); for(int j = 0; j < 8; j++) CHECK(x[j] == IN.st[i][j], "and keep their data"); }
    CHECK(vp_wr(7 + L, o[L], 0, IN.o, 2) == 0, "the others still own their tags");
    /* subscriptions, groups, mappings */
    vp_evt_reset();
    CHECK(vp_wr(9, t, 0, IN.e, 4) == 0, "written");
    CHECK(vp_evt_total == 2 && vp_evt_count[ev[L]] == 1 && vp_evt_count[ev[2]] == 1 && vp_evt_fd[ev[L]] == 7 + L && vp_evt_fd[ev[2]] == 9, "exactly its subscriptions are gone");
    CHECK(vp_rd(9, x2, 0, x, 4) == 0 && x[0] == 0 && x[1] == 0 && x[2] == IN.e[0] && x[3] == IN.e[1], "mappings stay");
    for(int i = 0; i < 3; i++) if(i != G) CHECK(grp(7 + i, 0, x) && x[0] == IN.e[i], "the groups of others stay");
#if WAY == 0
    vp_register(7 + G, AGAIN);
    who(G, G == 0 || AGAIN[0] != 'a' ? (AGAIN[0] == 'a' ? "_ma" : "_mc") : "_ma001");
#endif
    CHECK(!grp(7 + G, 0, x), "its groups are gone");
    CHECK(vp_evnt_del(7 + G, t, ev[G]) < 0 && vp_evnt_del(7 + G, t, ev[L]) < 0, "a new module has no subscriptions");
    CHECK(group(7 + G, t, 3) == 0 && grp(7 + G, 0, x) && x[0] == IN.e[3], "a new module has groups of its own");
    int32_t e2 = vp_evnt_add(7 + G, t, 0, 4, DAX_BYTE, EVENT_WRITE, 4, 0, NULL, 0);
    CHECK(e2 > 0 && e2 < VP_NEVT && e2 != ev[L] && e2 != ev[2], "a new module can subscribe");
    vp_evt_reset();
    CHECK(vp_wr(9, t, 1, IN.d, 2) == 0 && vp_evt_total == 3 && vp_evt_count[e2] == 1 && vp_evt_fd[e2] == 7 + G, "a new module is notified");
    COVER("end");
}
