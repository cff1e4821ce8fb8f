/* C01/C02: one arbitrary write (WR), masked write (MW) or read message
 * against a tag with neighbours on both sides. */
#include "server_env.h"
#ifndef TTYPE
#define TTYPE DAX_BYTE
#define TCOUNT 8
#define N 8
#endif
#ifdef MW
#define MAXLEN (2 * N + 2)
#else
#define MAXLEN (N + 4)
#endif
VP_INPUTS { int32_t off; uint32_t rsize; uint8_t len; uint8_t d0[N], nb[N], data[MAXLEN]; };
#include "vp_main.h"

void vp_main(void) {
    tag_index l, t, r;
    uint8_t m[8 + MAXLEN], before[3][N], after[3][N];
    int ok, inb, k;

    vp_server_start();
#ifdef CDT
    tag_type ct;
    char def[] = CDT;
    ct = cdt_create(def, NULL);
    CHECK(ct != 0, "the datatype is created");
#undef TTYPE
#define TTYPE ct
#endif
    l = tag_add(7, "L", TTYPE, TCOUNT, 0);
    t = tag_add(7, "T", TTYPE, TCOUNT, 0);
    r = tag_add(7, "R", TTYPE, TCOUNT, 0);
    CHECK(l >= 0 && t >= 0 && r >= 0 && l != t && t != r && l != r, "three tags are added");
    CHECK(tag_read(7, t, 0, before[1], N) == 0, "a new tag can be read");
    for(int i = 0; i < N; i++) CHECK(before[1][i] == 0, "a new tag reads as zero");
    CHECK(tag_write(7, t, 0, IN.d0, N) == 0, "a write that exactly fills the tag is accepted");
    tag_write(7, l, 0, IN.nb, N); tag_write(7, r, 0, IN.nb, N);
    CHECK(tag_read(7, l, 0, before[0], N) == 0 && tag_read(7, t, 0, before[1], N) == 0 && tag_read(7, r, 0, before[2], N) == 0, "tags can be read");
    for(int i = 0; i < N; i++) CHECK(before[1][i] == IN.d0[i] && before[0][i] == IN.nb[i] && before[2][i] == IN.nb[i], "read returns what was last written");

    vp_put32(m, t); vp_put32(m + 4, IN.off);
    VP_RSP_RESET();
#if defined(WR) || defined(MW)
    ASSUME(IN.len <= MAXLEN);
    for(int i = 0; i < MAXLEN; i++) m[8 + i] = IN.data[i];
#ifdef MW
    ASSUME(IN.len % 2 == 0);
    k = IN.len / 2;
#define CMD MSG_TAG_MWRITE
#define NEWBYTE(i, old) ((IN.data[(i) - IN.off] & IN.data[(i) - IN.off + k]) | ((old) & ~IN.data[(i) - IN.off + k]))
#else
    k = IN.len;
#define CMD MSG_TAG_WRITE
#define NEWBYTE(i, old) (IN.data[(i) - IN.off])
#endif
    VP_SEND_LEN(7, CMD, m, 8 + IN.len, 8, 8 + MAXLEN);
    CHECK(vp_rsp_count == 1 && vp_rsp.fd == 7, "exactly one reply, to the sender");
    ok = VP_IS_RESPONSE(CMD);
    inb = IN.off >= 0 && IN.off <= N && IN.off + k <= N;
    CHECK(ok || VP_IS_ERROR(CMD), "reply is a response or an error");
    CHECK(ok == inb, "write accepted exactly when it lies inside the tag");
    CHECK(tag_read(7, l, 0, after[0], N) == 0 && tag_read(7, t, 0, after[1], N) == 0 && tag_read(7, r, 0, after[2], N) == 0, "tags can still be read");
    for(int i = 0; i < N; i++) {
        CHECK(after[0][i] == before[0][i] && after[2][i] == before[2][i], "no other tag changes");
        if(ok && i >= IN.off && i < IN.off + k) CHECK(after[1][i] == (uint8_t)NEWBYTE(i, before[1][i]), "written bits are stored, masked bits are kept");
        else CHECK(after[1][i] == before[1][i], "bytes outside the write keep their value");
    }
    if(ok && k > 0 && IN.off > 0) COVER("accepted partial write");
    if(!ok) COVER("rejected write");
#else
    vp_put32(m + 8, IN.rsize);
    vp_send(7, MSG_TAG_READ, m, 12);
    CHECK(vp_rsp_count == 1 && vp_rsp.fd == 7, "exactly one reply, to the reader");
    ok = VP_IS_RESPONSE(MSG_TAG_READ);
    inb = IN.off >= 0 && IN.off <= N && IN.rsize <= N && IN.off + IN.rsize <= N;
    CHECK(ok || VP_IS_ERROR(MSG_TAG_READ), "reply is a response or an error");
    CHECK(ok == inb, "read accepted exactly when it lies inside the tag");
    if(ok) {
        CHECK(vp_rsp.size == IN.rsize && vp_rsp.len == IN.rsize + 8, "reply carries the bytes asked for");
        for(int i = 0; i < N; i++) if(i < IN.rsize) CHECK(vp_rsp.data[i] == before[1][IN.off + i], "read returns the stored bytes");
        COVER("accepted read");
    } else COVER("rejected read");
    tag_read(7, t, 0, after[1], N);
    for(int i = 0; i < N; i++) CHECK(after[1][i] == before[1][i], "a read changes nothing");
#endif
}
