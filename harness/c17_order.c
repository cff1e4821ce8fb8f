/* C17: modules come and go in the order SCRIPT (+f registers on descriptor f, -f disconnects, each name is one letter: 'a' + f % 3) */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[10][4]; int32_t fd; };
#include "vp_main.h"
static int ready = -1;
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) {
    for(int i = 0; i < 12; i++) if(i != ready) FD_CLR(i, r);
    return ready >= 0;
}
static int newfd;
int vp_accept(int fd, struct sockaddr *a, socklen_t *l) { return newfd; }
static uint8_t name[10][34];
static int live[10], uses[10];
static const char script[] = SCRIPT;
void vp_main(void) {
    uint8_t x[4], y[34], m[5];
    int32_t t;
    vp_server_start();
    t = tag_add(-1, "T", DAX_BYTE, 10, 0);
    for(int s = 0; s < (int)sizeof(script) - 1; s += 2) {
        int f = script[s + 1] - '0';
        if(script[s] == '+') {
            char nm[2] = {'a' + f % 3, 0};
            uint8_t h[23] = {1, 0};
            if(!live[f]) { ready = 3; newfd = f; CHECK(msg_receive() == 0, "accepted"); }
            vp_register(f, nm);
            live[f] = 1;
            CHECK(vp_rd(f, 10, 0, y, 33) == 0, "a registered module has a tag");
            for(int i = 0; i < 33; i++) name[f][i] = y[i];
            for(int o = 3; o < 10; o++) if(live[o] && o != f) { int same = 1; for(int i = 0; i < 33; i++) if(name[o][i] != name[f][i]) same = 0; CHECK(!same, "no two modules have the same tag"); }
            vp_handle(h + 2, t, f, 0, 1, 1, DAX_BYTE);
            VP_RSP_RESET(); vp_send(f, MSG_GRP_ADD, h, 23); CHECK(vp_result(MSG_GRP_ADD) == 0, "a new module has no groups");
        } else {
            ready = f;
            CHECK(msg_receive() == 0, "a disconnect is no error");
            live[f] = 0;
        }
        for(int o = 3; o < 10; o++) {
            vp_put32(m, 0); m[4] = IN.d[o][s / 2 & 3];
            VP_RSP_RESET();
            vp_send(o, MSG_GRP_WRITE, m, 5);
            CHECK(vp_rsp_count == 1 && ((vp_rsp.type & 0x01000000u) != 0) == live[o], "exactly the registered modules can use their groups");
            if(!live[o]) continue;
            tag_read(-1, t, o, x, 1); CHECK(x[0] == IN.d[o][s / 2 & 3], "a module writes its own group");
            CHECK(vp_rd(o, 10, 0, y, 33) == 0, "a module keeps its tag");
            for(int i = 0; i < 33; i++) CHECK(y[i] == name[o][i], "a module keeps its tag");
        }
    }
    ASSUME(IN.fd < 3 || IN.fd > 9 || !live[IN.fd]);
    CHECK(module_find_fd(IN.fd) == NULL, "no other descriptor is a module");
    COVER("end");
}
