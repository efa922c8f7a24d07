// S04: any memory image, opened as it is: opening and using it ends, and stays inside the region.
#include "storage.h"
#ifndef LARGE
#define LARGE false
#endif
static uint8_t before[R];
void vf_harness()
{
    const int n = REGION;
    vf_fill(before, R);
    for (int i = 0; i < R; ++i) region[i] = before[i];
    PersistentStorage s(regionView(n), false);
    for (int i = 0; i < R; ++i) vf_assert(region[i] == before[i], "opening changes nothing");
    const Name name;
    uint32_t v = 0, w = 0;
    const bool has = get(s, name, LARGE, v);
    for (int i = 0; i < R; ++i) vf_assert(region[i] == before[i], "reading changes nothing");
    vf_witness(has, "found");
    vf_witness(!has, "not found");
#ifdef SET
    const uint32_t x = vf_nd_u32("value");
    const bool ok = set(s, name, LARGE, x);
    if (has)
    {
        vf_assert(ok, "an object that is there can be updated");
        get(s, name, LARGE, w);
        vf_assert(w == clip(LARGE, x), "updated");
    }
    vf_witness(ok && !has, "created");
    vf_witness(!ok, "no room");
    for (int i = 0; i < R; ++i)
        if (!ok || i < R - n) vf_assert(region[i] == before[i], "a failed set changes nothing, nothing outside the region changes");
#endif
}
