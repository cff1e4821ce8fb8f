/* C11: the size of a type for any number of each member */
#include "srv_ops.h"
VP_INPUTS { uint8_t c[8]; };
#include "vp_main.h"
void vp_main(void) {
    char m[] = TEXT; /* the two digits at POS are any number */
    uint64_t bits = 0;
    int err = 0;
    vp_server_start();
    vp_register(7, "m");
#ifdef SUB
    { char s[] = SUB; VP_RSP_RESET(); vp_send(7, MSG_CDT_CREATE, s, sizeof(s)); CHECK(VP_IS_RESPONSE(MSG_CDT_CREATE), "the inner type is accepted"); }
#endif
    for(int i = 0; i < N; i++) { ASSUME(IN.c[i] < 10 && (i > 0 || IN.c[i] > 0)); m[POS + i] = '0' + IN.c[i]; bits = bits * 10 + IN.c[i]; }
    VP_OPAQUE(POS, POS + N);
    uint64_t n = bits;
    bits = BITS(n);
    int ty = cdt_create(m, &err);
    VP_OPAQUE(0, 0);
    if((bits + 7) / 8 > 0x0fffffff) { CHECK(ty == 0 && err < 0, "a type that is too big is refused"); 
#ifdef BIG
        COVER("too big");
#endif
        return;
    }
    CHECK((uint32_t)ty == 0x80000000u + TYPENO && err == 0, "the type is accepted");
    CHECK(type_size(0x80000000u + TYPENO) == (int)((bits + 7) / 8), "a type is as big as its members need");
    COVER("end");
}
