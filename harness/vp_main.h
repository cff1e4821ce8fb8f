/* included by a harness right after it defined struct vp_in */
struct vp_in IN;
void vp_main(void);
#ifdef VP_SYM
struct vp_in nondet_vp_in(void);
int main(void) { IN = nondet_vp_in(); vp_main(); return 0; }
#else
int main(void) {
    setvbuf(stdout, NULL, _IOLBF, 0);
#include "replay_in.h"
    vp_main();
    printf("VP-END\n");
    return 0;
}
#endif
