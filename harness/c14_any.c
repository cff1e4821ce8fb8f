/* C14: any bytes: only messages with a possible size are dispatched, nothing is read or written out of bounds,
 * and a connection that sent garbage and was closed does not affect the next one on the same descriptor. */
#include "vp.h"
#include "vp_env.h"
#include <common.h>
#include <opendax.h>
#include "message.h"
VP_INPUTS { uint8_t b[R][DAX_MSGMAX]; uint8_t n[R]; };
#include "vp_main.h"
static int r, calls, good;
void dax_log(uint32_t topic, const char *format, ...) { }
int opt_min_buffers(void) { return 1; }
int vp_kill(pid_t p, int s) { return 0; }
pid_t vp_getpid(void) { return 1; }
static unsigned be(const uint8_t *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
ssize_t vp_read(int fd, void *b, size_t n) {
    uint8_t *p = b;
    unsigned k = IN.n[r];
    if(k > n) k = n;
    for(unsigned i = 0; i < DAX_MSGMAX; i++) if(i < k) p[i] = IN.b[r][i];
    return k;
}
int msg_dispatcher(int fd, unsigned char *buff) {
    unsigned size = be(buff);
    CHECK(size >= MSG_HDR_SIZE && size <= DAX_MSGMAX, "only possible messages are dispatched");
    calls++;
    buff_free(fd);
    return 0;
}
void vp_main(void) {
    buff_initialize();
    VP_NOALLOC();
    for(r = 0; r < R; r++) { if(buff_read(5) < 0) COVER("refused"); }
    buff_free(5); /* the connection is closed */
    r = 0; calls = 0;
    ASSUME(be(IN.b[0]) >= MSG_HDR_SIZE && be(IN.b[0]) <= DAX_MSGMAX && IN.n[0] == be(IN.b[0]));
    CHECK(buff_read(5) == 0 && calls == 1, "the next connection starts clean");
    COVER("end");
}
