/* extern "C" primitives for the native C++ build of a harness */
#include "vf_native.h"
#undef vf_nd_u8
#undef vf_nd_u16
#undef vf_nd_u32
#undef vf_nd_u64
#undef vf_nd_bool
unsigned char vf_nd_u8(const char *n) { return (unsigned char)vf_next_(n); }
unsigned short vf_nd_u16(const char *n) { return (unsigned short)vf_next_(n); }
unsigned int vf_nd_u32(const char *n) { return (unsigned int)vf_next_(n); }
unsigned long vf_nd_u64(const char *n) { return (unsigned long)vf_next_(n); }
unsigned char vf_nd_bool(const char *n) { return (unsigned char)(vf_next_(n) & 1); }
void vf_assert(int c, const char *id) { vf_assert_(c, id); }
void vf_assume(int c) { vf_assume_(c); }
void vf_witness(int c, const char *id) { vf_witness_(c, id); }
void vf_harness(void);
void model_known_digits(unsigned long v, const unsigned char *d, unsigned n) { (void)v; (void)d; (void)n; }
void model_any_digits(void) {}
int main(void) { vf_harness(); vf_end_(); return 0; }
