/* Helpers that build requests as a client puts them on the wire */
#ifndef SRV_OPS_H
#define SRV_OPS_H
#include "server_env.h"
#define CONNECT_SYNC_FLAG 1
static inline void vp_be32(uint8_t *p, uint32_t v) { p[0] = v >> 24; p[1] = v >> 16; p[2] = v >> 8; p[3] = v; }
/* register the module 'name' on fd */
static inline int vp_register(int fd, const char *name) {
    uint8_t m[8 + 16] = {0};
    int l = 0;
    vp_be32(m, 1000); vp_be32(m + 4, CONNECT_SYNC_FLAG);
    while(name[l]) { m[8 + l] = name[l]; l++; }
    VP_RSP_RESET();
    vp_send(fd, MSG_MOD_REG, m, 8 + l + 1);
    CHECK(VP_IS_RESPONSE(MSG_MOD_REG) && vp_rsp.fd == fd, "a module can register");
    return 0;
}
/* result of the last request: the first word of a response or the negative error code */
static inline int32_t vp_result(uint32_t cmd) {
    CHECK(vp_rsp_count == 1, "exactly one reply");
    CHECK(VP_IS_RESPONSE(cmd) || VP_IS_ERROR(cmd), "the reply is a response or an error");
    if(VP_IS_RESPONSE(cmd)) return vp_rsp.size >= 4 ? (int32_t)vp_get32(vp_rsp.data) : 0;
    CHECK((int32_t)vp_get32(vp_rsp.data) < 0, "error codes are negative");
    return (int32_t)vp_get32(vp_rsp.data);
}
static inline int32_t vp_tag_add(int fd, const char *name, uint32_t type, uint32_t count, uint32_t attr) {
    uint8_t m[12 + 34] = {0};
    int l = 0;
    vp_put32(m, type); vp_put32(m + 4, count); vp_put32(m + 8, attr);
    while(name[l]) { m[12 + l] = name[l]; l++; }
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_ADD, m, 12 + l + 1);
    return vp_result(MSG_TAG_ADD);
}
static inline int32_t vp_tag_del(int fd, int32_t idx) {
    uint8_t m[4];
    int32_t r;
    vp_put32(m, idx);
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_DEL, m, 4);
    r = vp_result(MSG_TAG_DEL);
    return r < 0 ? r : 0;
}
static inline int32_t vp_evnt_add(int fd, int32_t idx, int32_t byte, uint32_t count, uint32_t type, uint32_t etype, uint32_t size, uint8_t bit, const uint8_t *data, int dlen) {
    uint8_t m[25 + 8] = {0};
    vp_put32(m, idx); vp_put32(m + 4, byte); vp_put32(m + 8, count); vp_put32(m + 12, type); vp_put32(m + 16, etype); vp_put32(m + 20, size);
    m[24] = bit;
    for(int i = 0; i < 8; i++) if(i < dlen) m[25 + i] = data[i];
    VP_RSP_RESET();
    vp_send(fd, MSG_EVNT_ADD, m, 25 + dlen);
    return vp_result(MSG_EVNT_ADD);
}
static inline int32_t vp_evnt_del(int fd, int32_t idx, int32_t id) {
    uint8_t m[8];
    int32_t r;
    vp_put32(m, idx); vp_put32(m + 4, id);
    VP_RSP_RESET();
    vp_send(fd, MSG_EVNT_DEL, m, 8);
    r = vp_result(MSG_EVNT_DEL);
    return r < 0 ? r : 0;
}
static inline int32_t vp_evnt_opt(int fd, int32_t idx, int32_t id, uint32_t opt) {
    uint8_t m[12];
    int32_t r;
    vp_put32(m, idx); vp_put32(m + 4, id); vp_put32(m + 8, opt);
    VP_RSP_RESET();
    vp_send(fd, MSG_EVNT_OPT, m, 12);
    r = vp_result(MSG_EVNT_OPT);
    return r < 0 ? r : 0;
}
/* write n (concrete) bytes */
static inline int32_t vp_wr(int fd, int32_t idx, int32_t off, const uint8_t *d, int n) {
    uint8_t m[8 + 24];
    vp_put32(m, idx); vp_put32(m + 4, off);
    for(int i = 0; i < 24; i++) if(i < n) m[8 + i] = d[i];
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_WRITE, m, 8 + n);
    return vp_result(MSG_TAG_WRITE);
}
static inline int32_t vp_mwr(int fd, int32_t idx, int32_t off, const uint8_t *d, const uint8_t *k, int n) {
    uint8_t m[8 + 24];
    vp_put32(m, idx); vp_put32(m + 4, off);
    for(int i = 0; i < 12; i++) if(i < n) { m[8 + i] = d[i]; m[8 + n + i] = k[i]; }
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_MWRITE, m, 8 + 2 * n);
    return vp_result(MSG_TAG_MWRITE);
}
static inline int32_t vp_atomic(int fd, int32_t idx, int32_t byte, uint32_t count, uint32_t type, uint8_t bit, uint16_t op, const uint8_t *d, int n) {
    uint8_t m[21 + 16] = {0};
    vp_put32(m, idx); vp_put32(m + 4, byte); vp_put32(m + 8, count); vp_put32(m + 12, type);
    m[16] = bit; m[17] = op; m[18] = op >> 8;
    for(int i = 0; i < 16; i++) if(i < n) m[21 + i] = d[i];
    VP_RSP_RESET();
    vp_send(fd, MSG_ATOMIC_OP, m, 21 + n);
    return vp_result(MSG_ATOMIC_OP);
}
static inline void vp_handle(uint8_t *m, int32_t idx, uint32_t byte, uint8_t bit, uint32_t count, uint32_t size, uint32_t type) {
    vp_put32(m, idx); vp_put32(m + 4, byte); m[8] = bit; vp_put32(m + 9, count); vp_put32(m + 13, size); vp_put32(m + 17, type);
}
/* read n (concrete) bytes through the message interface */
static inline int32_t vp_rd(int fd, int32_t idx, int32_t off, uint8_t *d, int n) {
    uint8_t m[12];
    int32_t r;
    vp_put32(m, idx); vp_put32(m + 4, off); vp_put32(m + 8, n);
    VP_RSP_RESET();
    vp_send(fd, MSG_TAG_READ, m, 12);
    CHECK(vp_rsp_count == 1, "exactly one reply");
    if(VP_IS_RESPONSE(MSG_TAG_READ)) {
        CHECK(vp_rsp.size == (uint32_t)n, "a read reply has the size asked for");
        for(int i = 0; i < VP_CAP; i++) if(i < n) d[i] = vp_rsp.data[i];
        return 0;
    }
    CHECK(VP_IS_ERROR(MSG_TAG_READ), "the reply is a response or an error");
    r = (int32_t)vp_get32(vp_rsp.data);
    CHECK(r < 0, "error codes are negative");
    return r;
}
#endif
