// K01: bits and bytes written to a BitStream come out in order, most significant bit first.
#include "vf.h"
#include "gfx-font-converter/BitStream.h"
#ifndef STEPS
#define STEPS 6
#endif
static uint8_t got[STEPS + 2];
static unsigned gotCount;
struct Sink
{
    Sink& operator<<(uint8_t b) { vf_assert(gotCount < sizeof(got), "no more bytes than bits call for"); got[gotCount++] = b; return *this; }
};
// expected bits
static uint64_t want;
static unsigned bits;
static void add(unsigned v, unsigned n) { want |= (uint64_t(v) << (64 - n)) >> bits; bits += n; }
void vf_harness()
{
    Sink sink;
    BitStream<Sink> s(sink);
    for (int i = 0; i < K; ++i)      // K bits into a byte...
    {
        const bool b = vf_nd_bool("bit");
        s << b;
        add(b, 1);
    }
    for (int i = 0; i < STEPS; ++i)  // ...any operations
    {
        const uint8_t op = vf_nd_u8("op"), v = vf_nd_u8("value");
        if (op == 0)
        {
            BitStream<Sink>& r = s << bool(v & 1);
            vf_assert(&r == &s, "chains");
            add(v & 1, 1);
        }
        else if (op == 1)
        {
            s << v;
            add(v, 8);
        }
        else if (op == 2)
        {
            s.flush();
            bits = (bits + 7) / 8 * 8;
        }
        vf_assert(gotCount == bits / 8, "every full byte is passed on at once, and only those");
    }
    s.flush();
    const unsigned n = (bits + 7) / 8;
    vf_assert(gotCount == n, "flush passes the started byte on");
    for (int i = 0; i < STEPS + 1; ++i)
        if (i < int(n)) vf_assert(got[i] == uint8_t(want >> (56 - 8 * i)), "the bits in order, the rest of a flushed byte zero");
    s.flush();
    vf_assert(gotCount == n, "nothing left");
    vf_witness(bits % 8 != 0 && n > 1, "partial");
    vf_witness(n >= STEPS, "bytes only");
}
