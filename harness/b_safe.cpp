// B01: any insertion in any state only appends, within the capacity.
#include "out_state.h"
#ifndef LEN
#define LEN 6
#endif
using B = embedded::BufferedOut;
void vf_harness()
{
    OutState s;
    s.out << B::width { vf_nd_i32("width") } << B::precision { vf_nd_i32("precision") } << B::fill { char(vf_nd_u8("fill")) };
    vf_assert(int(s.out.size()) == s.p, "settings append nothing");
#if OP == 0
    model_any_digits();
    switch (TY)
    {
        case 0: s.out << int(vf_nd_u32("v")); break;
        case 1: s.out << unsigned(vf_nd_u32("v")); break;
        case 2: s.out << long(vf_nd_u64("v")); break;
        case 3: s.out << (unsigned long)vf_nd_u64("v"); break;
        case 4: s.out << (long long)vf_nd_u64("v"); break;
        default: s.out << (unsigned long long)vf_nd_u64("v"); break;
    }
#elif OP == 1
    float f = vf_nd_f32("v");
    vf_assume(f > -2147483648.0f && f < 2147483648.0f);
    s.out << f;
#else
    uint8_t t[LEN];
    vf_fill(t, LEN);
    const int n = vf_range(0, LEN);
    uint8_t* b = t + LEN - n;
    switch (vf_range(0, 4))
    {
        case 0: s.out << std::string_view(reinterpret_cast<char*>(b), size_t(n)); break;
        case 1: vf_assume(n > 0 && t[LEN - 1] == 0); s.out << reinterpret_cast<const char*>(b); break;
        case 2: s.out << embedded::ConstBytesView(b, size_t(n)); break;
        case 3: vf_assume(n > 0); s.out << *b; break;
        default: vf_assume(n > 0); s.out << char(*b); break;
    }
#endif
    s.checkAppendOnly();
    vf_witness(int(s.out.size()) > s.p, "something appended");
    vf_witness(int(s.out.size()) == s.c && s.c > 0, "full");
    vf_assert(s.out.data().begin() == reinterpret_cast<uint8_t*>(raw + CAP - s.c) && s.out.data().size() == s.out.size(), "views agree");
    vf_assert(s.out.asStringView().size() == s.out.size(), "views agree");
}
