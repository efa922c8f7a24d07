/* Native side of the harness primitives: inputs come from a file of values, outcomes are exit codes.
   0 all assertions held, 10 assertion failed, 11 undefined behaviour / trap, 77 an assumption failed,
   78 ran out of recorded inputs, 79 unmodelled call. */
#ifndef VF_NATIVE_H
#define VF_NATIVE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *vf_in_; static int vf_trace_ = -1; static int vf_soft_;
static unsigned long long vf_next_(const char *name)
{
    if (!vf_in_) {
        const char *p = getenv("VF_INPUT");
        vf_in_ = p ? fopen(p, "r") : NULL;
        vf_trace_ = getenv("VF_TRACE") != NULL;
        vf_soft_ = getenv("VF_SOFT") != NULL;
    }
    unsigned long long v = 0;
    if (!vf_in_ || fscanf(vf_in_, "%llu", &v) != 1) {
        if (vf_soft_) v = 0; else { printf("VF: out of inputs\n"); fflush(stdout); _Exit(78); }
    }
    if (vf_trace_) printf("VF: in %s=%llu\n", name, v);
    return v;
}
static void vf_stop_(const char *k, const char *id, int code) { printf("VF: %s %s\n", k, id); fflush(stdout); _Exit(code); }
static void vf_assert_(int c, const char *id) { if (!c) vf_stop_("assertion failed:", id, 10); }
static void vf_assume_(int c) { if (!c) vf_stop_("assumption", "false", 77); }
static void vf_witness_(int c, const char *id) { if (c) { printf("VF: witness %s\n", id); fflush(stdout); } }
static void vf_ub_(const char *m) { vf_stop_("undefined behaviour:", m, 11); }
static void vf_unmodelled_(const char *m) { vf_stop_("unmodelled", m, 79); }
static void vf_end_(void) { vf_witness_(1, "end of harness reached"); }
#define vf_nd_u8(n) ((unsigned char)vf_next_(n))
#define vf_nd_u16(n) ((unsigned short)vf_next_(n))
#define vf_nd_u32(n) ((unsigned int)vf_next_(n))
#define vf_nd_u64(n) ((unsigned long)vf_next_(n))
#define vf_nd_bool(n) ((unsigned char)(vf_next_(n) & 1))
#endif
