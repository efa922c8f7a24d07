// B05: text and characters: the longest prefix that fits.
#include "out_state.h"
#ifndef LEN
#define LEN 8
#endif
void vf_harness()
{
    OutState s;
    char t[LEN + 1];
    const int n = vf_range(0, LEN);
    // right-aligned, so reading past the text is out of bounds
    char* b = t + LEN - n;
    vf_fill(t, LEN);
    t[LEN] = 0;
    int expect = n;
    s.out << embedded::BufferedOut::width { vf_nd_i32("width") } << embedded::BufferedOut::precision { vf_nd_i32("precision") };
#if OP == 0
    s.out << std::string_view(b, size_t(n));
#elif OP == 1
    for (int i = 0; i < LEN; ++i) if (i < n) vf_assume(b[i] != 0);
    s.out << static_cast<const char*>(b);
#elif OP == 2
    vf_assume(n == 1);
    if (vf_nd_bool("op")) s.out << *b; else s.out.addChar(*b);
#endif
    s.checkAppendOnly();
    if (expect > s.room()) expect = s.room();
    vf_witness(n > 0 && n < s.room(), "fits");
    vf_witness(n > s.room(), "cut");
    vf_assert(int(s.out.size()) == s.p + expect, "longest prefix that fits");
    for (int i = 0; i < LEN; ++i)
        if (i < expect) vf_assert(s.text()[s.p + i] == b[i], "text as is");
}
