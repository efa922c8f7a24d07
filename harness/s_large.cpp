// S01, S03: objects larger than 255 bytes: SIZE bytes per object, three objects.
#include "storage.h"
struct Big { uint8_t b[SIZE]; };
static Big first, second, third;
static const int spots[] = { 0, SIZE / 2, SIZE - 1 };
static void change(Big& o) { for (int i : spots) o.b[i] = vf_nd_u8("contents"); }
static bool same(const PersistentStorage& s, const char* name, const Big& o)
{
    const auto r = s.get<Big>(name);
    if (!r) return false;
    for (int i : spots) if (r->b[i] != o.b[i]) return false;
    return true;
}
static bool absent(const PersistentStorage& s, const char* name) { return !s.get<Big>(name); }
void vf_harness()
{
    const uint32_t v = vf_nd_u32("value");
    change(first);
    change(second);
    PersistentStorage s(regionView(REGION), INIT);
    vf_assert(s.set("one", first) && s.set("two", second) && s.set("num", v), "stored");
    vf_assert(same(s, "one", first) && same(s, "two", second), "read back");
    change(first);
    vf_assert(s.set("one", first), "updated");
#ifdef REOPEN
    PersistentStorage t(regionView(REGION), false);
#else
    PersistentStorage& t = s;
#endif
    vf_assert(same(t, "one", first), "the last value");
    vf_assert(same(t, "two", second), "others stay");
    const auto n = t.get<uint32_t>("num");
    vf_assert(n && *n == v, "objects behind large ones stay");
    vf_assert(absent(t, "num") && absent(t, "") && !t.get<uint32_t>("one"), "objects never stored are absent");
    const bool ok = t.set("six", third);        // room for two only
    vf_assert(!ok && absent(t, "six"), "no room");
    vf_assert(same(t, "two", second) && t.get<uint32_t>("num"), "a refused set changes nothing");
    const uint32_t w = vf_nd_u32("value");
    vf_assert(t.set("last", w) && t.get<uint32_t>("last") && *t.get<uint32_t>("last") == w, "what fits is stored");
    vf_witness(v != w, "done");
}
