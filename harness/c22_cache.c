/* C22: what the client remembers about tags, through lookups by name (n) and index (i), additions (a), deletions (d) and reads of deleted tags (r) */
#include "lib_srv.h"
#define NT 6
VP_INPUTS { uint32_t type[NT], count[NT]; uint16_t attr[NT]; int32_t err; uint8_t data; };
#include "vp_main.h"
static const char *const names[NT] = {"A", "Bb", "C_", "Bbb", "a", "TheLongestNameThatATagCanHave_32"};
static int32_t idxs[NT] = {11, 12, 267, 13, 40, 65548};
static int there[NT] = {1, 1, 1, 1, 1, 1};
static uint32_t grown[NT];
static void tell(int k) {
    uint8_t r[14 + 33]; uint32_t c = IN.count[k] + grown[k];
    memcpy(r, &idxs[k], 4); memcpy(r + 4, &IN.type[k], 4); memcpy(r + 8, &c, 4); memcpy(r + 12, &IN.attr[k], 2); strcpy((char *)r + 14, names[k]);
    vp_reply(r, 15 + strlen(names[k]));
}
static void vp_request(void) {
    int k;
    if(vp_cmd == MSG_TAG_GET && vp_pay[0] == TAG_GET_NAME) { for(k = 0; k < NT; k++) if(strcmp(names[k], (char *)vp_pay + 1) == 0 && there[k]) { tell(k); return; } vp_error(ERR_NOTFOUND); return; }
    uint32_t i = vp_gle(vp_pay + (vp_cmd == MSG_TAG_GET));
    if(vp_cmd == MSG_TAG_ADD) { for(k = 0; strcmp(names[k], (char *)vp_pay + 12); k++); there[k] = 1; grown[k]++; vp_reply(&idxs[k], 4); return; }
    for(k = 0; k < NT && (uint32_t)idxs[k] != i; k++);
    if(k == NT || !there[k]) { vp_error(vp_cmd == MSG_TAG_GET ? ERR_ARG : ERR_DELETED); return; }
    if(vp_cmd == MSG_TAG_GET) tell(k);
    else if(vp_cmd == MSG_TAG_DEL) { there[k] = 0; vp_reply(&i, 4); }
    else if(vp_cmd == MSG_TAG_READ) vp_reply(&IN.data, 1);
    else CHECK(0, "no other requests");
}
void vp_main(void) {
    static const char s[] = SCRIPT;
    vp_lib_init(); DS.cache_limit = LIMIT;
    for(int i = 0; s[i]; i += 2) {
        int k = s[i + 1] - '0', r; dax_tag t; uint8_t d = 0x55; unsigned n;
        memset(&t, 0x55, sizeof t);
        switch(s[i]) {
        case 'n': r = dax_tag_byname(ds, &t, (char *)names[k]); break;
        case 'i': r = dax_tag_byindex(ds, &t, idxs[k]); break;
        case 'a': r = dax_tag_add(ds, NULL, (char *)names[k], DAX_INT, 1, 0); CHECK(r == 0, "added"); break;
        case 'd': n = there[k]; r = dax_tag_del(ds, idxs[k]); CHECK((r == 0) == n, "deleted"); break;
        case 'x': there[k] = 0; r = 0; break; /* another module deletes it */
        case 'r': r = dax_read(ds, idxs[k], 0, &d, 1); CHECK(there[k] ? r == 0 && d == IN.data : r == ERR_DELETED, "read"); break;
        }
        UNLOCKED();
        if(s[i] == 'n' || s[i] == 'i') {
            CHECK((r == 0) == there[k], "tags are found as long as they are there");
            if(r == 0) CHECK(t.idx == idxs[k] && strcmp(t.name, names[k]) == 0 && t.type == IN.type[k] && t.count == IN.count[k] + grown[k] && t.attr == IN.attr[k], "the tag is as it is on the server");
        }
        n = 0;
        if(DS.cache_head) { tag_cnode *c = DS.cache_head; do { CHECK(c->next->prev == c && c->prev->next == c, "the list is whole"); n++; c = c->next; } while(c != DS.cache_head && n < 10); }
        CHECK((int)n == DS.cache_count && (int)n <= (LIMIT ? LIMIT : 1), "no more tags are remembered than allowed");
    }
    COVER("end");
}
