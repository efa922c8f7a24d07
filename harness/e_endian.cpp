// E01: byte order changes.
#include "vf.h"
#include "EndianConversion.h"
using namespace embedded;
static uint8_t byteOf(uint32_t v, int i) { return uint8_t(v >> (8 * i)); }
void vf_harness()
{
    const uint16_t h = vf_nd_u16("half");
    const uint32_t w = vf_nd_u32("word");
    const uint16_t h2 = changeEndianess(h);
    vf_assert(byteOf(h2, 0) == byteOf(h, 1) && byteOf(h2, 1) == byteOf(h, 0), "16 bit: bytes reversed");
    vf_assert(changeEndianess(h2) == h, "16 bit: twice is the identity");
    const uint32_t w2 = changeEndianess(w);
    for (int i = 0; i < 4; ++i) vf_assert(byteOf(w2, i) == byteOf(w, 3 - i), "32 bit: bytes reversed");
    vf_assert(changeEndianess(w2) == w, "32 bit: twice is the identity");
    const float fl = changeEndianessToFloat(w);
    uint32_t bits;
    __builtin_memcpy(&bits, &fl, 4);
    const bool nan = (w2 & 0x7F800000u) == 0x7F800000u && (w2 & 0x7FFFFFu);
    if (!nan) vf_assert(bits == w2, "float: the reversed bytes as they are");
    uint32_t x[3] = { vf_nd_u32("before"), w, vf_nd_u32("after") };
    const uint32_t b = x[0], a = x[2];
    changeEndianess16x2(&x[1]);
    vf_assert(x[0] == b && x[2] == a, "16x2: only the given word changes");
    vf_assert(byteOf(x[1], 0) == byteOf(w, 1) && byteOf(x[1], 1) == byteOf(w, 0) && byteOf(x[1], 2) == byteOf(w, 3) && byteOf(x[1], 3) == byteOf(w, 2), "16x2: bytes of each half swapped");
    changeEndianess16x2(&x[1]);
    vf_assert(x[1] == w, "16x2: twice is the identity");
    vf_witness(nan, "NaN");
    vf_witness(w2 != w, "changed");
}
