/* C14: two clients send messages, the bytes arrive in chunks of any size in any order:
 * every message is dispatched exactly once, complete, in order and under its own connection. */
#include "vp.h"
#include "vp_env.h"
#include <common.h>
#include <opendax.h>
#include "message.h"
#define L (DAX_MSGMAX * 2)
VP_INPUTS { uint8_t sz[2][NMSG]; struct { uint8_t n; } rd[R]; };
#include "vp_main.h"
static unsigned avail[2], got[2], pos[2], done[2], nmsg[2];
static int fdof[2] = {5, 9};
void dax_log(uint32_t topic, const char *format, ...) { }
int opt_min_buffers(void) { return MINB; }
int vp_kill(pid_t p, int s) { return 0; }
pid_t vp_getpid(void) { return 1; }
static unsigned be(const uint8_t *p) { return (unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static int want;
static uint8_t st[2][L]; /* the streams: message sizes are symbolic, every other byte tells its position */
ssize_t vp_read(int fd, void *b, size_t n) {
    int c = fd == 9;
    uint8_t *p = b;
    unsigned k = want;
    CHECK(n > 0, "there is room to read into");
    if(k > avail[c] - got[c]) k = avail[c] - got[c];
    if(k > n) k = n;
    for(unsigned i = 0; i < DAX_MSGMAX; i++) if(i < k) p[i] = st[c][got[c] + i];
    got[c] += k;
    return k;
}
int msg_dispatcher(int fd, unsigned char *buff) {
    int c = fd == fdof[1];
    unsigned size;
    CHECK(fd == fdof[0] || fd == fdof[1], "dispatched for a client that sent something");
    CHECK(pos[c] < avail[c], "no message that was not sent");
    size = be(&st[c][pos[c]]);
    CHECK(got[c] >= pos[c] + size, "a message is dispatched when it is complete");
    for(unsigned i = 0; i < DAX_MSGMAX; i++) if(i < size) CHECK(buff[i] == st[c][pos[c] + i], "a message is dispatched as it was sent");
    pos[c] += size;
    nmsg[c]++;
    buff_free(fd);
    return 0;
}
void vp_main(void) {
    for(int c = 0; c < NC; c++) {
        unsigned p = 0;
        for(int j = 0; j < L; j++) st[c][j] = j + 100 * c + 100;
        for(int i = 0; i < NMSG; i++) {
            unsigned s = IN.sz[c][i];
            ASSUME(s >= MSG_HDR_SIZE && s <= DAX_MSGMAX);
            for(int j = 0; j < 4; j++) st[c][p + j] = j == 3 ? s : 0;
            p += s;
        }
        avail[c] = p;
    }
    buff_initialize();
#if MINB >= NC
    VP_NOALLOC();
#endif
    for(int r = 0; r < R; r++) {
        static const uint8_t sched[] = {SCHED};
        int c = sched[r];
        want = IN.rd[r].n;
        if(want == 0 || got[c] >= avail[c]) continue;
        CHECK(buff_read(fdof[c]) == 0, "well formed messages are accepted");
        /* everything that has arrived completely has been dispatched */
        CHECK(pos[c] == avail[c] || avail[c] - pos[c] < MSG_HDR_SIZE || pos[c] + be(&st[c][pos[c]]) > got[c], "a complete message is dispatched at once");
#if NMSG > 1
        if(nmsg[c] == 2) COVER("two messages");
#endif
#if NC > 1
        if(got[0] > pos[0] && got[1] > pos[1]) COVER("both incomplete");
#endif
    }
    COVER("end");
}
