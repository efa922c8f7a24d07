// S02: a new object is stored exactly when DescriptorSize + its size still fits; storing it takes exactly that much.
#include "storage.h"
template<size_t N> struct Bytes { uint8_t b[N]; };
#ifndef TYPES
#define TYPES uint8_t, uint32_t, Bytes<3>
#endif
static int left;
template<typename T> static void add(PersistentStorage& s, char c)
{
    const char name[2] = { c, char(vf_nd_u8("name")) };
    const int needs = int(PersistentStorage::DescriptorSize + sizeof(T));
    T x;
    vf_fill(&x, sizeof(T));
    const bool ok = s.set<T>({ name, 2 }, x);
    vf_assert(ok == (needs <= left), "stored exactly when it fits");
    if (ok) left -= needs;
    const auto r = s.get<T>({ name, 2 });
    vf_assert(r.has_value() == ok, "stored");
    if (r) vf_assert(__builtin_memcmp(&*r, &x, sizeof(T)) == 0, "value");
}
template<typename... T> static void all(PersistentStorage& s) { char c = 'a'; (add<T>(s, c++), ...); }
void vf_harness()
{
    left = vf_range(0, R);
    PersistentStorage s(regionView(left));
    all<TYPES>(s);
    vf_witness(left == 0, "full to the last byte");
    vf_witness(left > 0, "room left");
}
