// B02: the decimal rendering of an integer is appended in full or not at all.
#include "out_state.h"
#include "digits.h"
void vf_harness()
{
    OutState s;
    Decimal<VT> n;
    s.out << n.value;
    s.checkAppendOnly();
    const bool fits = n.size() <= s.room();
    vf_witness(fits, "fits");
    vf_witness(!fits, "doesn't fit");
    vf_witness(n.neg || !Decimal<VT>::sgn, "negative or unsigned type");
    vf_witness(n.len == Decimal<VT>::MAXD, "longest value");
    vf_assert(int(s.out.size()) == s.p + (fits ? n.size() : 0), "whole rendering or nothing");
    if (fits)
        for (int i = 0; i < int(Decimal<VT>::MAXD) + 1; ++i)
            if (i < n.size()) vf_assert(s.text()[s.p + i] == n.at(i), "decimal rendering");
}
