/* C16: a history of adding and deleting groups by two modules, then a request with any group index.
 * SCRIPT is a sequence of +m (module m adds a group) and -mi (module m deletes its group with index i);
 * OP is the last request, by module FD (7, 8; 9 never registered). */
#include "srv_ops.h"
VP_INPUTS { uint8_t d[9], a[2][8]; uint32_t id; };
#include "vp_main.h"
#define MAXG 8
static int32_t t[2];
static int live[3][MAXG], val[2][MAXG]; /* group i of module o stands for byte val of tag t[o] */
static int nadd[2];
static const char script[] = SCRIPT;
void vp_main(void) {
    uint8_t m[2 + 21], x[2][MAXG];
    vp_server_start();
    vp_register(7, "m"); vp_register(8, "n");
    t[0] = tag_add(7, "T", DAX_BYTE, MAXG, 0);
    t[1] = tag_add(7, "U", DAX_BYTE, MAXG, 0);
    for(int s = 0; s < (int)sizeof(script) - 1;) {
        int o = script[s + 1] - '0', fd = 7 + o;
        VP_RSP_RESET();
        if(script[s] == '+') {
            m[0] = 1; m[1] = 0;
            vp_handle(m + 2, t[o], nadd[o], 0, 1, 1, DAX_BYTE);
            vp_send(fd, MSG_GRP_ADD, m, 23);
            int32_t g = vp_result(MSG_GRP_ADD);
            int want = 0;
            while(live[o][want]) want++; /* any free index would do; keep it concrete */
            CHECK(g >= 0 && g < MAXG && !live[o][g & (MAXG - 1)], "a new group gets an index of its own");
            ASSUME(g == want); /* bound: the first free one */
            live[o][want] = 1; val[o][want] = nadd[o]++;
            s += 2;
        } else {
            int i = script[s + 2] - '0';
            vp_put32(m, i);
            vp_send(fd, MSG_GRP_DEL, m, 4);
            CHECK((vp_result(MSG_GRP_DEL) >= 0) == live[o][i], "exactly an existing group of the module can be deleted");
            live[o][i] = 0;
            s += 3;
        }
    }
    int o = FD - 7;
    for(int k = 0; k < 2; k++) { for(int i = 0; i < MAXG; i++) x[k][i] = IN.a[k][i]; CHECK(vp_wr(7, t[k], 0, IN.a[k], MAXG) == 0, "written"); }
    ASSUME(IN.id >= MAXG);
    for(int i = 0; i <= MAXG; i++) {
        int known = i < MAXG && live[o][i];
        vp_put32(m, i < MAXG ? (uint32_t)i : IN.id); m[4] = IN.d[i];
        VP_RSP_RESET();
        vp_send(FD, OP, m, OP == MSG_GRP_WRITE ? 5 : 4);
        CHECK((vp_result(OP) >= 0 || (OP == MSG_GRP_READ && vp_rsp.type == (OP | 0x01000000))) == known, "a request succeeds exactly for the groups of the module that exist");
        if(OP == MSG_GRP_READ && known) CHECK(vp_rsp.size == 1 && vp_rsp.data[0] == x[o][val[o][i]], "a group reads its own member");
        if(OP == MSG_GRP_WRITE && known) x[o][val[o][i]] = IN.d[i];
        if(OP == MSG_GRP_DEL && known) {
            live[o][i] = 0;
            for(int p = 0; p < 2; p++) for(int j = 0; j < 4; j++) { /* exactly that one is gone */
                vp_put32(m, j);
                VP_RSP_RESET();
                vp_send(7 + p, MSG_GRP_READ, m, 4);
                CHECK((vp_rsp_count == 1 && vp_rsp.type == (MSG_GRP_READ | 0x01000000)) == live[p][j], "exactly the deleted group is gone");
                if(live[p][j]) CHECK(vp_rsp.size == 1 && vp_rsp.data[0] == x[p][val[p][j]], "the other groups keep their members");
            }
        }
    }
    COVER("end");
    for(int k = 0; k < 2; k++) {
        uint8_t y[MAXG];
        tag_read(7, t[k], 0, y, MAXG);
        for(int i = 0; i < MAXG; i++) CHECK(y[i] == x[k][i], "exactly the members of the group are written");
    }
}
