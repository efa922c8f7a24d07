// B07: clear() and the views.
#include "out_state.h"
using B = embedded::BufferedOut;
void vf_harness()
{
    OutState s;
    s.out << B::width { vf_nd_i32("width") } << B::precision { vf_nd_i32("precision") } << B::fill { char(vf_nd_u8("fill")) };
    const B& c = s.out;
    uint8_t* const start = reinterpret_cast<uint8_t*>(raw);
    vf_assert(c.data().begin() == start && int(c.data().size()) == s.p, "const bytes view");
    vf_assert(s.out.data().begin() == start && int(s.out.data().size()) == s.p, "bytes view");
    vf_assert(c.asStringView().data() == raw && int(c.asStringView().size()) == s.p, "text view");
    vf_assert(static_cast<uint8_t*>(s.out) == start && static_cast<const uint8_t*>(c) == start, "raw pointer");
    s.out.clear();
    vf_assert(s.out.size() == 0 && s.out.capacity() == CAP && s.out.asStringView().empty() && s.out.data().empty() && c.data().empty(), "empty after clear");
    vf_witness(s.p == CAP, "cleared when full");
    // and the settings are the initial ones
    switch (vf_range(0, 2))
    {
        case 0:
            s.out << 5;
            vf_assert(s.out.size() == 1 && raw[0] == '5', "width reset");
            break;
        case 1:
            s.out << -1.5f;
            vf_assert(s.out.size() == 2 && raw[0] == '-' && raw[1] == '1', "precision reset");
            break;
        default:
            s.out << B::width { 3 } << 5;
            vf_assert(s.out.size() == 3 && raw[0] == ' ' && raw[1] == ' ' && raw[2] == '5', "fill reset");
            break;
    }
}
