// V01: subviews are clipped to the view, for every offset and count.
#include "vf.h"
#include "MemoryView.h"
using embedded::MemoryView;
struct B3 { uint8_t b[3]; };
#ifndef VT
#define VT uint16_t
#endif
#ifndef ELEMENTS
#define ELEMENTS 6
#endif
static VT data[ELEMENTS];
void vf_harness()
{
    const int lead = vf_range(0, ELEMENTS), len = vf_range(0, ELEMENTS);
    vf_assume(lead + len <= ELEMENTS);
    const MemoryView<VT> v(data + lead, size_t(len));
    const uint64_t offset = vf_nd_u64("offset"), count = vf_nd_u64("count");
    const uint64_t npos = ~uint64_t(0);
    VT* const begin = data + lead;
    auto within = [&](MemoryView<VT> s, uint64_t from, uint64_t n, const char* id)
    {
        vf_assert(s.size() == n, "size of the subview");
        vf_assert(s.empty() == (n == 0), "empty() iff size 0");
        if (n > 0) vf_assert(s.data() == begin + from, "start of the subview");
        vf_assert(s.size_bytes() == n * sizeof(VT), "size in bytes");
#if ELEMENTS > 100
        return;
#endif
        uint64_t k = 0;
        for (auto it = s.begin(); it != s.end() && k < ELEMENTS + 1; ++it) ++k;
        vf_assert(k == n, "iteration visits size() elements");
    };
    uint64_t n = offset >= uint64_t(len) ? 0 : len - offset;
    within(v.subspan(offset), offset, n, "tail");
    vf_witness(n > 0 && offset > 0, "tail");
    const uint64_t m = count < n ? count : n;
    within(v.subspan(offset, count), offset, m, "middle");
    vf_witness(m > 0 && m < n, "middle");
    vf_witness(n > 0 && count > n && count != npos && offset + count < offset, "wrapping sum");
    const uint64_t c = count < uint64_t(len) ? count : uint64_t(len);
    within(v.first(count), 0, c, "first");
    within(v.last(count), len - c, c, "last");
    vf_assert(v.size() == size_t(len) && v.data() == begin, "the view itself doesn't change");
    vf_witness(count > uint64_t(len), "longer than the view");
    vf_witness(len == 0, "empty");
}
