/* C18: a handle of NITEMS items (of TTYPE) at any place of the tag's data: read, write or masked write */
#include "lib_srv.h"
#define DBN (SIZE + 4)
#ifndef BIT0
# define BIT0 0
# define BIT1 0
#endif
VP_INPUTS { uint8_t db[DBN], data[SIZE + 1], mask[SIZE + 1]; uint8_t off, failat; int32_t idx, err; };
#include "vp_main.h"
static uint8_t db[DBN];
static tag_handle h;
static uint32_t seen;
static int failed; static int item; /* bytes of an item */
static void vp_request(void) {
    uint32_t idx = vp_gle(vp_pay), off = vp_gle(vp_pay + 4), n;
    CHECK((int32_t)idx == IN.idx, "the request names the tag");
    if(vp_cmd == MSG_TAG_READ) { CHECK(vp_len >= 12, "complete request"); n = vp_gle(vp_pay + 8); }
    else if(vp_cmd == MSG_TAG_WRITE) n = vp_len - 8;
    else if(vp_cmd == MSG_TAG_MWRITE) { CHECK(vp_len % 2 == 0, "as much mask as data"); n = (vp_len - 8) / 2; }
    else { CHECK(0, "only reads and writes"); return; }
    CHECK(n > 0 && n <= MSG_DATA_SIZE, "a request of some bytes");
    CHECK(off == IN.off + seen && n <= h.size - seen, "nothing but the data of the handle is asked for, once and in order");
    CHECK(n % item == 0, "items are not torn between messages");
    if(vp_nreq - 1 == IN.failat) { failed = 1; vp_error(IN.err); return; }
    if(vp_cmd == MSG_TAG_READ) vp_reply(db + IN.off + seen, n);
    else {
        for(unsigned i = 0; i < n; i++) {
            uint8_t m = vp_cmd == MSG_TAG_WRITE ? 0xFF : vp_pay[8 + n + i];
            uint8_t *d = &db[IN.off + seen + i];
            *d = (*d & ~m) | (vp_pay[8 + i] & m);
        }
        vp_reply(NULL, 0);
    }
    seen += n;
}
static int bitof(const uint8_t *p, unsigned i) { return p[i / 8] >> (i % 8) & 1; }
void vp_main(void) {
    vp_lib_init();
    ASSUME(IN.off <= DBN - SIZE && IN.err < 0);
#ifdef CDT
    { char s[] = CDT2; add_cdt_to_cache(ds, CDT_TO_TYPE(3), s); }
    { char s[] = CDT; add_cdt_to_cache(ds, CDT_TO_TYPE(2), s); }
#endif
    h.index = IN.idx; h.byte = IN.off; h.count = NITEMS; h.type = TTYPE;
    for(int bit = BIT0; bit <= BIT1; bit++) {
        int r;
        uint8_t *data, *mask, old[DBN];
        h.bit = bit;
        h.size = TTYPE == DAX_BOOL ? (bit + NITEMS - 1) / 8 + 1 : SIZE;
        item = TTYPE == DAX_BOOL ? 1 : SIZE / NITEMS;
        for(int i = 0; i < DBN; i++) old[i] = db[i] = IN.db[i];
        data = malloc(h.size); mask = malloc(h.size);
        for(int i = 0; i < (int)h.size; i++) { data[i] = IN.data[i]; mask[i] = IN.mask[i]; }
        seen = 0; vp_nreq = 0; failed = 0;
        r = OP == 0 ? dax_tag_read(ds, h, data) : OP == 1 ? dax_tag_write(ds, h, data) : dax_tag_mask(ds, h, data, mask);
        UNLOCKED();
        if(failed) { CHECK(r == IN.err, "an error of the server is returned"); COVER("failed"); }
        else { CHECK(r == 0, "success"); CHECK(seen == h.size, "all of the data"); COVER("done"); }
        if(r) ;
        else if(TTYPE == DAX_BOOL)
            for(int i = 0; i < NITEMS; i++) {
                if(OP == 0) CHECK(bitof(data, i) == bitof(old + IN.off, bit + i), "every bit is read");
                else CHECK(bitof(db + IN.off, bit + i) == (OP == 1 || bitof(IN.mask, i) ? bitof(IN.data, i) : bitof(old + IN.off, bit + i)), "every bit is written");
            }
        else
            for(int i = 0; i < SIZE; i++) {
                if(OP == 0) CHECK(data[i] == old[IN.off + i], "every byte is read");
                else { uint8_t m = OP == 1 ? 0xFF : IN.mask[i]; CHECK(db[IN.off + i] == ((IN.data[i] & m) | (old[IN.off + i] & ~m)), "every byte is written"); }
            }
        for(int i = 0; i < DBN; i++) {
            if(i < IN.off || i >= IN.off + (int)h.size || OP == 0) CHECK(db[i] == old[i], "nothing else is written");
            else if(TTYPE == DAX_BOOL) {
                int k = i - IN.off; uint8_t m = 0;
                for(int b = 0; b < 8; b++) if(k * 8 + b >= bit && k * 8 + b < bit + NITEMS) m |= 1 << b;
                CHECK(((db[i] ^ old[i]) & ~m) == 0, "no other bit is written");
            }
        }
        free(data); free(mask);
    }
}
