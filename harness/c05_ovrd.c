/* C05: any history of override requests and writes; what reads return and what the counters say. */
#include "srv_ops.h"
#define N 2
struct step { uint8_t op, flag, data[N], mask[N]; int32_t off; };
VP_INPUTS { struct step s[K]; uint8_t d0[N]; };
#include "vp_main.h"

static int32_t req(uint32_t cmd, const uint8_t *m, int len) {
    VP_RSP_RESET();
    vp_send(8, cmd, m, len);
    CHECK(vp_rsp.fd == 8, "the reply goes to the sender");
    return vp_result(cmd);
}

void vp_main(void) {
    tag_index t, u;
    uint8_t raw[N], od[N] = {0}, om[N] = {0}, v[2 * N], m[16];
    int inst = 0, set = 0, any;
    int32_t r, c;

    vp_server_start();
    t = tag_add(7, "T", TY, CNT, 0);
    u = tag_add(7, "U", DAX_BYTE, N, 0);
    tag_write(7, t, 0, IN.d0, N); tag_write(7, u, 0, IN.d0, N);
    for(int i = 0; i < N; i++) raw[i] = IN.d0[i];
    for(int k = 0; k < K; k++) {
        struct step *s = &IN.s[k];
#ifdef OPS
        static const uint8_t ops[] = OPS;
        const int op = ops[k];
        ASSUME(s->op == op);
#else
        const int op = s->op;
        ASSUME(op < 5);
#endif
        vp_put32(m, t);
        switch(op) {
        case 0: /* install for the whole tag */
            vp_put32(m + 4, 0); vp_put32(m + 8, 0);
            for(int i = 0; i < N; i++) { m[12 + i] = s->data[i]; m[12 + N + i] = s->mask[i]; }
            r = req(MSG_ADD_OVRD, m, 12 + 2 * N);
            CHECK(r >= 0, "an override of the whole tag can be installed");
            for(int i = 0; i < N; i++) { od[i] = (od[i] & ~s->mask[i]) | (s->data[i] & s->mask[i]); om[i] |= s->mask[i]; }
            inst = 1;
            break;
        case 1: /* install one byte anywhere */
            vp_put32(m + 4, s->off); vp_put32(m + 8, 0);
            m[12] = s->data[0]; m[13] = s->mask[0];
            r = req(MSG_ADD_OVRD, m, 14);
            CHECK((r >= 0) == (s->off >= 0 && s->off < N), "an override is accepted exactly when it lies inside the tag");
            if(r >= 0) {
                for(int i = 0; i < N; i++) if(i == s->off) { od[i] = (od[i] & ~s->mask[0]) | (s->data[0] & s->mask[0]); om[i] |= s->mask[0]; }
                inst = 1;
            }
            break;
        case 2: /* remove */
            vp_put32(m + 4, 0);
            for(int i = 0; i < N; i++) m[8 + i] = s->mask[i];
            r = req(MSG_DEL_OVRD, m, 8 + N);
            CHECK((r >= 0) == inst, "an override can be removed exactly when one is installed");
            any = 0;
            for(int i = 0; i < N; i++) { om[i] &= ~s->mask[i]; od[i] &= ~s->mask[i]; any |= om[i]; }
            if(!any) inst = set = 0;
            break;
        case 3: /* enable or disable */
            m[4] = s->flag;
            r = req(MSG_SET_OVRD, m, 5);
            CHECK((r >= 0) == (inst || !s->flag), "an override can be enabled exactly when one is installed");
            if(r >= 0) set = s->flag != 0;
            break;
        case 4: /* the process writes the tag */
            vp_put32(m + 4, 0);
            for(int i = 0; i < N; i++) m[8 + i] = s->data[i];
            r = req(MSG_TAG_WRITE, m, 8 + N);
            CHECK(r >= 0, "an override does not prevent writes");
            for(int i = 0; i < N; i++) raw[i] = s->data[i];
            break;
        }
    }
    CHECK(vp_rd(8, t, 0, v, N) == 0, "the tag can be read");
    for(int i = 0; i < N; i++) CHECK(v[i] == (uint8_t)(set ? (od[i] & om[i]) | (raw[i] & ~om[i]) : raw[i]), "reads return the override for the overridden bits and the real value for the rest");
    vp_put32(m, t); vp_put32(m + 4, 0); vp_put32(m + 8, N);
    r = req(MSG_GET_OVRD, m, 12);
    CHECK(VP_IS_RESPONSE(MSG_GET_OVRD) && vp_rsp.size == 2 * N, "the override can be read back");
    for(int i = 0; i < N; i++) CHECK(vp_rsp.data[i] == raw[i] && vp_rsp.data[N + i] == om[i], "the real value and the override mask are reported");
    CHECK(tag_read(-1, INDEX_OVRD_INSTALLED, 0, &c, 4) == 0 && c == inst, "_overrides_installed counts the tags with an override");
    CHECK(tag_read(-1, INDEX_OVRD_SET, 0, &c, 4) == 0 && c == set, "_overrides_set counts the tags with an enabled override");
    tag_read(-1, u, 0, v, N);
    for(int i = 0; i < N; i++) CHECK(v[i] == IN.d0[i], "other tags are not affected");
    COVER("end");
    if(set) COVER("enabled");
    tag_del(t);
    CHECK(tag_read(-1, INDEX_OVRD_INSTALLED, 0, &c, 4) == 0 && c == 0, "deleting the tag uninstalls its override");
    CHECK(tag_read(-1, INDEX_OVRD_SET, 0, &c, 4) == 0 && c == 0, "deleting the tag removes its enabled override");
}
