// Harness primitives.  In the symbolic build they become solver variables, assumptions and obligations (engine/vf_rt.h);
// in the native build they read the recorded counterexample and check it (engine/vf_native.h).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t vf_nd_u8(const char*);
uint16_t vf_nd_u16(const char*);
uint32_t vf_nd_u32(const char*);
uint64_t vf_nd_u64(const char*);
uint8_t vf_nd_bool(const char*);
void vf_assume(int);
void vf_assert(int, const char*);
void vf_witness(int, const char*);
void vf_harness();
}
static inline int32_t vf_nd_i32(const char* n) { return static_cast<int32_t>(vf_nd_u32(n)); }
static inline int8_t vf_nd_i8(const char* n) { return static_cast<int8_t>(vf_nd_u8(n)); }
static inline float vf_nd_f32(const char* n) { uint32_t u = vf_nd_u32(n); float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline int vf_range(int lo, int hi)
{
    if (hi - lo < 256) { const int v = lo + vf_nd_u8("range"); vf_assume(v <= hi); return v; }      // few bits for the solver
    if (hi - lo < 65536) { const int v = lo + vf_nd_u16("range"); vf_assume(v <= hi); return v; }
    int v = vf_nd_i32("range"); vf_assume(v >= lo); vf_assume(v <= hi);
    return v;
}
static inline void vf_fill(void* p, size_t n) { for (size_t i = 0; i < n; ++i) static_cast<uint8_t*>(p)[i] = vf_nd_u8("byte"); }
// Tells the std::to_chars contract model the decimal digits of v (no effect in the native build).
extern "C" void model_known_digits(uint64_t v, const uint8_t* digits, unsigned count);
extern "C" void model_any_digits();
