/* C11: any name of the type, of a member, any text as a count or as the type of a member */
#include "srv_ops.h"
VP_INPUTS { char c[3]; };
#include "vp_main.h"
static int al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void vp_main(void) {
    char m[] = TEXT;
    vp_server_start();
    vp_register(7, "m");
    for(int i = 0; i < N; i++) {
        ASSUME(IN.c[i] != ':' && IN.c[i] != ',' && IN.c[i] != 0);
        m[POS + i] = IN.c[i];
    }
    int err = 0;
    VP_OPAQUE(POS, POS + N);
    tag_type ty = cdt_create(m, &err);
    VP_OPAQUE(0, 0);
    CHECK((ty == 0) == (err != 0) && err <= 0, "a type or an error");
    int ok, acc = ty != 0;
#if CASE == 0 /* a name */
    ok = al(IN.c[0]) || IN.c[0] == '_';
    for(int i = 1; i < N; i++) if(!al(IN.c[i]) && IN.c[i] != '_' && !(IN.c[i] >= '0' && IN.c[i] <= '9')) ok = 0;
#ifdef OTHER
    { int eq = 1; const char *o = OTHER; for(int i = 0; i < N; i++) if(low(IN.c[i]) != o[i]) eq = 0; if(eq) ok = 0; }
#endif
#endif
    CHECK(acc == ok, "exactly the well formed definitions are accepted");
    if(ok) COVER("accepted"); else COVER("refused");
}
