/* Environment of the tag server: sockets, clock, options, logger, SQLite.
 * Used both in the symbolic encoding and in native replays. */
#define VP_ENV_IMPL
#include "vp_env.h"
#include "server_env.h"
#include <stdarg.h>

struct vp_msg vp_rsp, vp_evt;
int vp_rsp_count, vp_evt_count[VP_NEVT], vp_evt_total, vp_evt_bad;
int vp_evt_fd[VP_NEVT], vp_evt_tag[VP_NEVT], vp_evt_kind[VP_NEVT];
int64_t vp_clock_ms = 1000000;
int vp_closed[16];
int vp_fail_writes;
int vp_killed;

void dax_log(uint32_t topic, const char *format, ...) { }
const char *dax_errstr(int e) { return ""; }

uint32_t vp_get32(const uint8_t *p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
void vp_put32(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static uint32_t be32(const uint8_t *p) { return p[3] | (uint32_t)p[2] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[0] << 24; }

#ifndef VP_OWN_WRITE
ssize_t vp_write(int fd, const void *b, size_t n) {
    const uint8_t *p = b;
    uint32_t type;
    size_t k;
    if(vp_fail_writes) { errno = EPIPE; return -1; }
    CHECK(n >= 8, "every message written by the server has a full header");
    type = be32(&p[4]);
    k = n - 8;
    if(type & 0x80000000u) {
        uint32_t id = be32(&p[12]);
        if(n < 16 || id == 0 || id >= VP_NEVT) vp_evt_bad++;
        else { vp_evt_count[id]++; vp_evt_fd[id] = fd; vp_evt_tag[id] = be32(&p[8]); vp_evt_kind[id] = type & 0xff; }
        vp_evt_total++;
        vp_evt.fd = fd; vp_evt.len = n; vp_evt.size = be32(&p[0]); vp_evt.type = type;
        for(size_t i = 0; i < VP_CAP; i++) if(i < k) vp_evt.data[i] = p[8 + i];
    } else {
        vp_rsp_count++;
        vp_rsp.fd = fd; vp_rsp.len = n; vp_rsp.size = be32(&p[0]); vp_rsp.type = type;
        for(size_t i = 0; i < VP_CAP; i++) if(i < k) vp_rsp.data[i] = p[8 + i];
    }
    return n;
}
#endif
void vp_evt_reset(void) { for(int i = 0; i < VP_NEVT; i++) vp_evt_count[i] = 0; vp_evt_total = 0; vp_evt_bad = 0; }

#ifndef VP_OWN_READ
ssize_t vp_read(int fd, void *b, size_t n) { return 0; }
#endif
int vp_close(int fd) { if(fd >= 0 && fd < 16) vp_closed[fd]++; return 0; }
#ifndef VP_OWN_SELECT
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return 0; }
int vp_accept(int fd, struct sockaddr *a, socklen_t *l) { return -1; }
#endif
static int nextsock = 3;
int vp_socket(int a, int b, int c) { return nextsock++; }
int vp_bind(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
int vp_listen(int fd, int n) { return 0; }
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { return 0; }
int vp_unlink(const char *p) { return 0; }
int vp_kill(pid_t p, int s) { vp_killed++; return 0; }
pid_t vp_getpid(void) { return 100; }
int vp_getpeername(int fd, struct sockaddr *a, socklen_t *l) { a->sa_family = AF_LOCAL; return 0; }
int vp_getsockname(int fd, struct sockaddr *a, socklen_t *l) { return 0; }
int64_t vp_tv_sec = -1;
int vp_gettimeofday(struct timeval *t) { if(vp_tv_sec >= 0) { t->tv_sec = vp_tv_sec; t->tv_usec = 123999; return 0; } t->tv_sec = vp_clock_ms / 1000; t->tv_usec = (vp_clock_ms % 1000) * 1000; return 0; }

/* configuration */
char *opt_socketname(void) { return "/tmp/vp"; }
struct in_addr opt_serverip(void) { struct in_addr a; a.s_addr = 0; return a; }
unsigned int opt_serverport(void) { return 7777; }
#ifndef VP_OWN_EXCLUDE
char *opt_mod_tag_exclude(void) { return NULL; }
#endif
#ifndef VP_MIN_BUFFERS
#define VP_MIN_BUFFERS 2
#endif
int opt_min_buffers(void) { return VP_MIN_BUFFERS; }
int opt_start_timeout(void) { return 3000; }

#ifndef VP_OWN_SQLITE
/* Retention is not active: opening the database never happened. */
typedef struct sqlite3 sqlite3; typedef struct sqlite3_stmt sqlite3_stmt;
int sqlite3_open(const char *f, sqlite3 **s) { *s = NULL; return 1; }
int sqlite3_close(sqlite3 *s) { return 0; }
int sqlite3_prepare_v2(sqlite3 *s, const char *q, int n, sqlite3_stmt **st, const char **t) { *st = NULL; return 1; }
int sqlite3_step(sqlite3_stmt *st) { return 1; }
int sqlite3_reset(sqlite3_stmt *st) { return 0; }
int sqlite3_clear_bindings(sqlite3_stmt *st) { return 0; }
int sqlite3_finalize(sqlite3_stmt *st) { return 0; }
int sqlite3_exec(sqlite3 *s, const char *q, int (*cb)(void *, int, char **, char **), void *a, char **e) { return 1; }
int sqlite3_bind_blob(sqlite3_stmt *st, int i, const void *d, int n, void (*f)(void *)) { return 1; }
int sqlite3_bind_int(sqlite3_stmt *st, int i, int v) { return 1; }
int sqlite3_bind_text(sqlite3_stmt *st, int i, const char *d, int n, void (*f)(void *)) { return 1; }
const unsigned char *sqlite3_column_text(sqlite3_stmt *st, int i) { return NULL; }
int sqlite3_column_int(sqlite3_stmt *st, int i) { return 0; }
const void *sqlite3_column_blob(sqlite3_stmt *st, int i) { return NULL; }
int sqlite3_column_bytes(sqlite3_stmt *st, int i) { return 0; }
long long sqlite3_last_insert_rowid(sqlite3 *s) { return 0; }
int sqlite3_changes(sqlite3 *s) { return 0; }
const char *sqlite3_errmsg(sqlite3 *s) { return ""; }
#endif

void vp_server_start(void) {
    msg_setup();
    initialize_tagbase();
    vp_evt_reset();
    VP_RSP_RESET();
}

int vp_send(int fd, uint32_t type, const void *payload, uint32_t len) {
    static unsigned char buff[DAX_MSGMAX + 8];
    uint32_t size = len + 8;
    buff[0] = size >> 24; buff[1] = size >> 16; buff[2] = size >> 8; buff[3] = size;
    buff[4] = type >> 24; buff[5] = type >> 16; buff[6] = type >> 8; buff[7] = type;
    for(uint32_t i = 0; i < DAX_MSGMAX - 8; i++) if(i < len) buff[8 + i] = ((const unsigned char *)payload)[i];
    return msg_dispatcher(fd, buff);
}
