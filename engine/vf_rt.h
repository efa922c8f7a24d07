/* Runtime of the generated C: machine types, obligations, nondeterministic inputs.
   VF_CBMC: symbolic build.  Otherwise: native build of the same C, used to validate the translation. */
#ifndef VF_RT_H
#define VF_RT_H
typedef unsigned char vf_u8; typedef signed char vf_s8;
typedef unsigned short vf_u16; typedef short vf_s16;
typedef unsigned int vf_u32; typedef int vf_s32;
typedef unsigned long vf_u64; typedef long vf_s64;
typedef unsigned __int128 vf_u128; typedef __int128 vf_s128;
typedef unsigned char *vf_ptr;
#define VF_INF (__builtin_inf())
#define VF_INFF (__builtin_inff())
#define VF_NAN (__builtin_nan(""))
#define VF_NANF (__builtin_nanf(""))
static int vf_exc; static vf_ptr vf_exc_obj;

#define vf_p2i(p) ((vf_u64)(p))
#define vf_i2p(i) ((vf_ptr)(i))
#ifdef VF_CBMC
static vf_u64 vf_pdiff(vf_ptr a, vf_ptr b)       /* spelled out for constant propagation */
{
    if (a == b) return 0;
    if (__CPROVER_same_object(a, b)) return (vf_u64)__CPROVER_POINTER_OFFSET(a) - (vf_u64)__CPROVER_POINTER_OFFSET(b);
    return (vf_u64)(a - b);
}
#else
#define vf_pdiff(a,b) ((vf_u64)((a)-(b)))
#endif
#define VF_SHL(x,y,w) ((y) < (w) ? (x) << (y) : 0)
#define VF_SHR(x,y,w) ((y) < (w) ? (x) >> (y) : 0)

#ifdef VF_CBMC
#define VF_SIZE(t,n)
#define vf_isunord(a,b) ((a)!=(a) || (b)!=(b))
vf_u8 nondet_u8(void); vf_u16 nondet_u16(void); vf_u32 nondet_u32(void); vf_u64 nondet_u64(void); float nondet_f32(void);
/* always true, but not for the simplifier: keeps the conditions under which the input is read in the sliced formula, and so in the trace */
#define VF_KEEP_(t) __CPROVER_assume(((t) | 1) != 0)
#define vf_nd_u8(n)  ({ vf_u8  t_ = nondet_u8();  VF_KEEP_(t_); __CPROVER_input(n, t_); t_; })
#define vf_nd_u16(n) ({ vf_u16 t_ = nondet_u16(); VF_KEEP_(t_); __CPROVER_input(n, t_); t_; })
#define vf_nd_u32(n) ({ vf_u32 t_ = nondet_u32(); VF_KEEP_(t_); __CPROVER_input(n, t_); t_; })
#define vf_nd_u64(n) ({ vf_u64 t_ = nondet_u64(); VF_KEEP_(t_); __CPROVER_input(n, t_); t_; })
#define vf_nd_bool(n) ({ vf_u8 t_ = nondet_u8(); t_ = (vf_u8)(t_ & 1); VF_KEEP_(t_); __CPROVER_input(n, t_); t_; })
#define vf_any_u8() nondet_u8()
#define vf_any_u32() nondet_u32()
#define vf_any_u64() nondet_u64()
#define vf_assume(c) __CPROVER_assume(c)
#define VF_UNMODELLED(n) do { __CPROVER_assert(0, "[unmodelled] call to " n); __CPROVER_assume(0); } while (0)
#ifdef VF_WITNESS
#define vf_assert(c, id) __CPROVER_assume(c)
#define VF_UB(c, m) __CPROVER_assume(c)
#define VF_TRAP(m) __CPROVER_assume(0)
#define vf_witness(c, id) __CPROVER_assert(!(c), "[witness] " id)
#define VF_END() __CPROVER_assert(0, "[witness] end of harness reached")
#else
#define vf_assert(c, id) __CPROVER_assert(c, "[prop] " id)
#ifdef VF_NO_UB
#define VF_UB(c, m)
#else
#define VF_UB(c, m) __CPROVER_assert(c, "[ub] " m)
#endif
#define VF_TRAP(m) do { __CPROVER_assert(0, "[trap] " m); __CPROVER_assume(0); } while (0)
#define vf_witness(c, id)
#define VF_END()
#endif
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define VF_SIZE(t,n) _Static_assert(sizeof(t) == (n) || (n) == 0 || (n) == 1, "layout of " #t)
#define vf_isunord(a,b) __builtin_isunordered(a,b)
#include "vf_native.h"
#define vf_assert(c, id) vf_assert_((c) != 0, id)
#define vf_assume(c) vf_assume_((c) != 0)
#define vf_witness(c, id) vf_witness_((c) != 0, id)
#define VF_UB(c, m) do { if (!(c)) vf_ub_(m); } while (0)
#define VF_TRAP(m) vf_ub_(m)
#define VF_UNMODELLED(n) vf_unmodelled_(n)
#define VF_END() vf_end_()
#endif

static inline vf_u16 vf_bswap16(vf_u16 x) { return (vf_u16)((x << 8) | (x >> 8)); }
static inline vf_u32 vf_bswap32(vf_u32 x) { return (x << 24) | ((x & 0xff00u) << 8) | ((x >> 8) & 0xff00u) | (x >> 24); }
static inline vf_u64 vf_bswap64(vf_u64 x) { return ((vf_u64)vf_bswap32((vf_u32)x) << 32) | vf_bswap32((vf_u32)(x >> 32)); }
static inline vf_u32 vf_ctpop(vf_u64 x) { vf_u32 n = 0; for (int i = 0; i < 64; ++i) n += (x >> i) & 1; return n; }
static inline vf_u32 vf_ctlz(vf_u64 x, unsigned w) { vf_u32 n = 0; int on = 1; for (int i = 63; i >= 0; --i) { if ((unsigned)i < w && on) { if ((x >> i) & 1) on = 0; else ++n; } } return n; }
static inline vf_u32 vf_cttz(vf_u64 x, unsigned w) { vf_u32 n = 0; int on = 1; for (unsigned i = 0; i < 64; ++i) { if (i < w && on) { if ((x >> i) & 1) on = 0; else ++n; } } return n; }
#define vf_fabs(x) ((__typeof__(x))(sizeof(x) == 4 ? __builtin_fabsf(x) : __builtin_fabs(x)))
#define vf_signbit(x) (sizeof(x) == 4 ? __builtin_signbitf(x) : __builtin_signbit(x))

#if defined(VF_CBMC) && defined(VF_BUILTIN_MEMCPY)
/* big copies: CBMC's own array model instead of a loop */
void *memcpy(void *, const void *, __SIZE_TYPE__);
#define vf_memcpy(d, s, n) memcpy(d, s, n)
#elif defined(VF_CBMC) && defined(VF_MEMCPY_SIZES)
/* big copies where only the sizes matter: ranges checked, contents not modelled */
static void vf_memcpy(vf_ptr d, vf_ptr s, vf_u64 n)
{
    if (n <= 16) { for (vf_u64 i = 0; i < 16; ++i) if (i < n) d[i] = s[i]; return; }
    VF_UB(__CPROVER_r_ok(s, n), "memcpy source range");
    VF_UB(__CPROVER_w_ok(d, n), "memcpy destination range");
}
#else
static void vf_memcpy(vf_ptr d, vf_ptr s, vf_u64 n) { for (vf_u64 i = 0; i < n; ++i) d[i] = s[i]; }
#endif
static void vf_memset(vf_ptr d, vf_u8 c, vf_u64 n) { for (vf_u64 i = 0; i < n; ++i) d[i] = c; }
#ifdef VF_CBMC
#ifndef VF_MOVE_MAX
#define VF_MOVE_MAX 64
#endif
static void vf_memmove(vf_ptr d, vf_ptr s, vf_u64 n)
{
    vf_u8 t[VF_MOVE_MAX];
    if (n > VF_MOVE_MAX) VF_UNMODELLED("memmove of more than VF_MOVE_MAX bytes");
    for (vf_u64 i = 0; i < n; ++i) t[i] = s[i];
    for (vf_u64 i = 0; i < n; ++i) d[i] = t[i];
}
#else
static void vf_memmove(vf_ptr d, vf_ptr s, vf_u64 n) { memmove(d, s, n); }
#endif
#endif
