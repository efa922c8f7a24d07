// B06: bytes and byte spans: pairs of upper-case hex digits, whole pairs only.
#include "out_state.h"
#ifndef LEN
#define LEN 8
#endif
static char hex(unsigned v) { return char(v < 10 ? '0' + v : 'A' + (v - 10)); }
void vf_harness()
{
    OutState s;
    uint8_t t[LEN];
    vf_fill(t, LEN);
    int n = vf_range(0, LEN);
    uint8_t* b = t + LEN - n;
    s.out << embedded::BufferedOut::width { vf_nd_i32("width") } << embedded::BufferedOut::precision { vf_nd_i32("precision") };
#if OP == 0
    vf_assume(n == 1);
    s.out << *b;
#else
    s.out << embedded::ConstBytesView(b, size_t(n));
#endif
    s.checkAppendOnly();
    const int k = n < s.room() / 2 ? n : s.room() / 2;
    vf_witness(k == n && n > 0, "fits");
    vf_witness(k < n && s.room() % 2 == 1, "cut with one character of room left");
    vf_assert(int(s.out.size()) == s.p + 2 * k, "whole pairs that fit");
    for (int i = 0; i < LEN; ++i)
        if (i < k)
        {
            vf_assert(s.text()[s.p + 2 * i] == hex(b[i] >> 4), "high digit");
            vf_assert(s.text()[s.p + 2 * i + 1] == hex(b[i] & 15), "low digit");
        }
}
