/* The client library with its connection thread, which runs when the harness lets it (vp_thread) and reads what is on the wire. */
#define VP_OWN_READ 1
#define VP_OWN_COND 1
#include "lib_srv.h"
#include "libmsg.c"
#define WIRE 400
static uint8_t wire[WIRE]; static int w_in, w_out;
static int piece, pause_at, pause_how, paused; /* at most 'piece' bytes at a time; nothing at first at byte pause_at */
static void w1(uint8_t b) { wire[w_in++] = b; }
static void w4(uint32_t v) { w1(v >> 24); w1(v >> 16); w1(v >> 8); w1(v); }
static void msg(uint32_t type, const void *p, int n) { w4(n); w4(type); for(int i = 0; i < n; i++) w1(((const uint8_t *)p)[i]); }
ssize_t vp_read(int fd, void *b, size_t n) {
    int k = 0;
    CHECK(fd == DS.sfd, "the connection is read");
    CHECK(!vp_mlock_held && !vp_elock_held, "nobody is kept waiting while the connection is read");
    if(w_out == pause_at && !paused) { paused = 1; errno = pause_how; return -1; }
    if(w_out == w_in) { errno = EWOULDBLOCK; return -1; }
    while(k < (int)n && w_out < w_in && (piece == 0 || k < piece) && (k == 0 || w_out != pause_at)) ((uint8_t *)b)[k++] = wire[w_out++];
    return k;
}
static void vp_thread(void) { /* until there is nothing left to read */
    int r, k = 0;
    while(w_out < w_in && k++ < 14) { r = _read_next_message(ds); CHECK(r == 0 || r == ERR_TIMEOUT || pause_how == EINTR, "messages are read"); }
    CHECK(w_out == w_in, "all messages are read");
}
