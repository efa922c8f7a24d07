// S01, S02, S03: from any history of PRE sets, one more set, seen through any name.
// A stored object reads back, every other (name, type) keeps its value or absence, updating a stored object always succeeds;
// a failed set changes nothing; nothing is written outside the region; reopening shows the same objects.
#include "storage.h"
#ifndef PRE
#define PRE { true, false }
#endif
#ifndef OP
#define OP true
#endif
#ifndef PROBE
#define PROBE true
#endif
#ifndef FITS
#define FITS 1
#endif
static uint8_t before[R];
void vf_harness()
{
    const int n = REGION;
    vf_fill(region, R);
    for (int i = 0; i < R; ++i) before[i] = region[i];
    PersistentStorage s(regionView(n));
    constexpr bool pre[] = PRE;
    for (bool large : pre)
    {
        const Name name;
        set(s, name, large, vf_nd_u32("value"));
    }
    const Name probe;
    uint32_t v0 = 0, v1 = 0, v2 = 0;
    const bool has0 = get(s, probe, PROBE, v0);
#ifdef REOPEN
    PersistentStorage t(regionView(n), false);
    const bool has2 = get(t, probe, PROBE, v2);
    vf_assert(has2 == has0, "reopened: same objects");
    if (has0) vf_assert(v2 == v0, "reopened: same values");
    vf_witness(has0, "stored");
    vf_witness(!has0, "not stored");
    PersistentStorage& target = t;      // go on with the reopened one
#else
    PersistentStorage& target = s;
#endif
    const Name name;
    const uint32_t v = vf_nd_u32("value");
    const bool hit = name == probe && OP == PROBE;
    for (int i = R - n; i < R; ++i) before[i] = region[i];
    const bool ok = set(target, name, OP, v);
    const bool has1 = get(target, probe, PROBE, v1);
    if (FITS) vf_witness(ok && !hit && has0, "another object set");
    if (OP == PROBE) vf_witness(ok && hit && has0, "updated");
    if (FITS && OP == PROBE) vf_witness(ok && hit && !has0, "created");
    if (!FITS) vf_witness(!ok && has0, "no room");
    if (hit && has0) vf_assert(ok, "updating a stored object always succeeds");
    if (ok && hit) vf_assert(has1 && v1 == clip(OP, v), "the stored value is read back");
    else
    {
        vf_assert(has1 == has0, "other objects: presence unchanged");
        if (has0) vf_assert(v1 == v0, "other objects: value unchanged");
    }
    for (int i = 0; i < R; ++i)
    {
        if (!ok) vf_assert(region[i] == before[i], "a failed set changes nothing");
        else if (i < R - n) vf_assert(region[i] == before[i], "nothing written outside the region");
    }
}
