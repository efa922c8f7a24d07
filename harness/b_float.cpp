// B04: float rendering: sign, integer part, point, fraction digits, cut at the end of the buffer.
#include "out_state.h"
#include "digits.h"
#ifndef K
#define K 3
#endif
void vf_harness()
{
    OutState s;
    const float v = vf_nd_f32("v");
    vf_assume(v > -2147483648.0f && v < 2147483648.0f);
    // |v| = man * 2^(e-23), exactly
    uint32_t bits;
    __builtin_memcpy(&bits, &v, 4);
    const int exp = int((bits >> 23) & 255);
    const int e = exp == 0 ? -126 : exp - 127;
    const uint64_t man = (bits & 0x7fffff) | (exp == 0 ? 0 : 0x800000);
    Decimal<uint32_t> ip;       // the integer part and its digits
    vf_assume((e < 0 ? 0 : e <= 23 ? man >> (23 - e) : man << (e - 23)) == ip.value);
    // the fraction * 2^40, but for what's below 2^-40
    const uint64_t f40 = (e < -40 ? 0 : e < -17 ? man >> -(e + 17) : man << (e + 17)) & ((1ull << 40) - 1);
    const int p = vf_nd_i32("precision");
    vf_assume(p >= 0);
    s.out << embedded::BufferedOut::width { vf_nd_i32("width") } << embedded::BufferedOut::precision { p };
    s.out << v;
    s.checkAppendOnly();
    const bool minus = v < 0 && (ip.value != 0 || p > 0);
    const int S = int(ip.len) + minus, room = s.room();
    const int n = int(s.out.size()) - s.p;
    vf_witness(minus && ip.value == 0 && n == S + 3, "negative fraction");
    vf_witness(S > room, "no room");
    vf_witness(S == room && p > 0, "no room for the point");
    vf_witness(S + 1 < room && p > room, "fraction cut");
    if (S > room)
    {
        vf_assert(n == 0, "nothing without room for the integer part");
        return;
    }
    // p > 0: the point and p digits, as many as fit
    const int wanted = p == 0 ? 0 : p > room ? room : 1 + p;
    const int F = wanted < room - S ? wanted : room - S;
    vf_assert(n == S + F, "length");
    const char* t = s.text() + s.p;
    if (minus) vf_assert(t[0] == '-', "sign");
    for (int i = 0; i < 10; ++i)
        if (i < int(ip.len)) vf_assert(t[minus + i] == '0' + d[i], "integer part");
    if (F > 0) vf_assert(t[S] == '.', "point");
    uint64_t acc = 0, pow = 1;
    for (int i = 1; i < CAP; ++i)
        if (i < F)
        {
            const char c = t[S + i];
            vf_assert(c >= '0' && c <= '9', "digits");
            if (i <= K)
            {
                acc = acc * 10 + uint64_t(c - '0');
                pow *= 10;
                const uint64_t one = 1ull << 40;
                // |printed - |v|| < one unit of the last digit + 2^-20
                vf_assert(acc * one < f40 * pow + pow * ((1ull << 20) + 1), "not more than the value");
                vf_assert((acc + 1) * one + pow * (1ull << 20) > f40 * pow, "less than a unit below the value");
            }
        }
}
