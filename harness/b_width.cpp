// B03: field width and fill.
#include "out_state.h"
#include "digits.h"
void vf_harness()
{
    OutState s;
    Decimal<VT> n;
    const int w = vf_nd_i32("width");
    vf_assume(w >= 0);
    const char f = char(vf_nd_u8("fill"));
    const bool setFill = vf_nd_bool("set fill");
    if (setFill) s.out << embedded::BufferedOut::fill { f };
    s.out << embedded::BufferedOut::width { w };
#ifdef BETWEEN
    // text and characters are not padded and don't use the width up
    const char t = char(vf_nd_u8("text"));
    vf_assume(s.room() >= 1);
    if (vf_nd_bool("view")) s.out << std::string_view(&t, 1); else s.out << t;
    vf_assert(int(s.out.size()) == s.p + 1 && s.text()[s.p] == t, "text isn't padded");
    ++s.p;
    before[CAP - s.c + s.p - 1] = t;
#endif
    s.out << n.value;
    s.checkAppendOnly();
    const int L = n.size(), room = s.room();
    int F = w > L ? w : L;
    if (F > room) F = room;
    vf_witness(w < L && L <= room, "longer than the field");
    vf_witness(w > L && w < room, "padded");
    vf_witness(w > room && L < room, "padding clipped");
    vf_witness(L > room, "no room");
    if (L > room)
    {
        vf_assert(int(s.out.size()) == s.p, "nothing appended without room for the number");
        return;
    }
    vf_assert(int(s.out.size()) == s.p + F, "field size");
    for (int i = 0; i < CAP; ++i)
        if (i < F)
        {
            const char c = s.text()[s.p + i];
            if (i < F - L) vf_assert(c == (setFill ? f : ' '), "fill on the left");
            else vf_assert(c == n.at(i - (F - L)), "number on the right, not truncated");
        }
    // the width was for that number only
    const int q = int(s.out.size());
    s.out << 7;
    if (q < s.c)
    {
        vf_witness(w > L, "next number after a padded one");
        vf_assert(int(s.out.size()) == q + 1 && s.text()[q] == '7', "next number isn't padded");
    }
    else vf_assert(int(s.out.size()) == q, "full");
}
