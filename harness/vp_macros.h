/* Forced into every translation unit of the symbolic encoding (never into
 * replays).  memcpy/memmove/realloc keep their meaning; they are expanded
 * with the static type of the destination so that structures holding
 * pointers are copied member-wise by the encoder rather than byte-wise. */
#ifndef VP_MACROS_H
#define VP_MACROS_H
#include <stdlib.h>
#include <string.h>
#include <strings.h>
void *__CPROVER_allocate(__CPROVER_size_t size, __CPROVER_bool zero);
void *vp_memcpy_bytes(void *d, const void *s, size_t n, size_t arr);
void *vp_memmove_bytes(void *d, const void *s, size_t n, size_t arr);
void *vp_memset(void *d, int c, size_t n, size_t arr);
/* the size of the destination when it is written as an array, else unlimited */
#define VP_ARR(d) (__builtin_types_compatible_p(__typeof__(d), __typeof__(&(d)[0])) ? (size_t)-1 : sizeof(d))
void *vp_alloc(size_t n, int zero);
#define VP_PTR(p) __typeof__(__builtin_choose_expr(__builtin_types_compatible_p(__typeof__(*(p)), void), (unsigned char *)0, (__typeof__(&*(p)))0))
#define VP_COPY(d, s, n, back, bytes) ({ \
    VP_PTR(d) vp_d = (void *)(d); VP_PTR(d) vp_s = (void *)(s); size_t vp_n = (n); \
    if(sizeof(*vp_d) >= 16) __CPROVER_assert(vp_n % sizeof(*vp_d) == 0, "encoding: whole elements are copied"); \
    if(sizeof(*vp_d) >= 16 || (sizeof(*vp_d) > 1 && vp_n % sizeof(*vp_d) == 0)) { \
        size_t vp_k = vp_n / sizeof(*vp_d); \
        if(back && __CPROVER_POINTER_OBJECT(vp_d) == __CPROVER_POINTER_OBJECT(vp_s) && __CPROVER_POINTER_OFFSET(vp_d) > __CPROVER_POINTER_OFFSET(vp_s)) \
            for(size_t vp_i = vp_k; vp_i > 0; vp_i--) vp_d[vp_i-1] = vp_s[vp_i-1]; \
        else \
            for(size_t vp_i = 0; vp_i < vp_k; vp_i++) vp_d[vp_i] = vp_s[vp_i]; \
    } else if(sizeof(*vp_d) == 1 && sizeof(*(VP_PTR(s))0) >= 16 && vp_n == sizeof(*(VP_PTR(s))0)) { /* a structure put into a byte array */ \
        VP_PTR(s) vp_sd = (void *)vp_d; VP_PTR(s) vp_ss = (void *)vp_s; *vp_sd = *vp_ss; \
    } else bytes(vp_d, vp_s, vp_n, VP_ARR(d)); \
    (void *)vp_d; })
#undef memcpy
#undef memmove
#define memcpy(d, s, n) VP_COPY(d, s, n, 0, vp_memcpy_bytes)
#define memmove(d, s, n) VP_COPY(d, s, n, 1, vp_memmove_bytes)
#define VP_REALLOC(p, n, z) ({ \
    VP_PTR(p) vp_p = (void *)(p); size_t vp_rn = (n); VP_PTR(p) vp_q; \
    if(vp_p == NULL) vp_q = vp_alloc(vp_rn, z); \
    else { \
        size_t vp_os = __CPROVER_OBJECT_SIZE(vp_p); \
        size_t vp_m = (vp_os < vp_rn ? vp_os : vp_rn) / sizeof(*vp_p); \
        vp_q = vp_alloc(sizeof(*vp_p) * (vp_rn / sizeof(*vp_p)), 0); \
        for(size_t vp_i = 0; vp_i < vp_m; vp_i++) vp_q[vp_i] = vp_p[vp_i]; \
        free(vp_p); \
    } \
    (void *)vp_q; })
#define realloc(p, n) VP_REALLOC(p, n, 0)
#ifdef VP_SERVER
#include "func.h"
#define xrealloc(p, n) VP_REALLOC(p, n, 1)
#endif
#endif
