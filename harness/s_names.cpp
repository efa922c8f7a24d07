// S05: which names and types are told apart: names up to 4 characters (NUL-free) and the object's size.
#include "storage.h"
template<size_t N> struct Bytes { uint8_t b[N]; };
static uint8_t before[R];
void vf_harness()
{
    const int n = REGION;
    PersistentStorage s(regionView(n));
    const Name a(6), b(6);
    const uint32_t x = vf_nd_u32("value");
    for (int i = 0; i < R; ++i) before[i] = region[i];
    const bool ok = s.set<Large>(a.view(), x);
    vf_assert(ok == (a.len <= 4), "names of up to 4 characters are accepted, longer ones refused");
    const auto r = s.get<Large>(b.view());
    vf_assert(r.has_value() == (ok && a == b), "found under exactly the name it was stored under");
    if (r) vf_assert(*r == x, "value");
    if (!ok) for (int i = 0; i < R; ++i) vf_assert(region[i] == before[i], "a refused name changes nothing");
    vf_assert(!s.get<uint8_t>(b.view()) && !s.get<uint16_t>(b.view()) && !s.get<uint64_t>(b.view()), "objects of other sizes are other objects");
    vf_witness(ok && a == b, "same name");
    vf_witness(ok && !(a == b) && b.len == 4 && a.len < 4, "another name");
    vf_witness(!ok, "too long");
    vf_witness(ok && a.len == 0, "empty name");
}
