// B03, B05, B06: one large insertion behind a long text: sizes beyond a byte.  Sizes concrete, contents symbolic.
#include "vf.h"
#include "BufferedOut.h"
#ifndef CAP
#define CAP 640
#endif
#define OLD 290
#define LEN 300
static char raw[CAP], old[OLD];
static uint8_t text[LEN + 1];
static char hex(unsigned v) { return char(v < 10 ? '0' + v : 'A' + (v - 10)); }
void vf_harness()
{
    embedded::BufferedOut out(embedded::MemoryView<char>(raw, size_t(CAP)));
    vf_fill(old, OLD);
    vf_fill(text, LEN);
    text[LEN] = 0;
    out << std::string_view(old, size_t(OLD));
    vf_assert(out.size() == OLD && out.capacity() == CAP, "set up");
    const int room = CAP - OLD;
    int expect = LEN;
#if OP == 0
    out << std::string_view(reinterpret_cast<const char*>(text), size_t(LEN));
#elif OP == 1
    for (int i = 0; i < LEN; ++i) vf_assume(text[i] != 0);
    out << reinterpret_cast<const char*>(text);
#elif OP == 2
    out << embedded::ConstBytesView(text, size_t(LEN));
    expect = 2 * LEN;
#elif OP == 3
    const int field = LEN < room ? LEN : room;
    for (int i = 0; i < field - 3; ++i) vf_assume(text[i] == text[0]);
    out << embedded::BufferedOut::width { LEN } << embedded::BufferedOut::fill { char(text[0]) } << 123;
    vf_assume(text[field - 3] == '1' && text[field - 2] == '2' && text[field - 1] == '3');
#endif
    if (expect > room) expect = OP == 2 ? room / 2 * 2 : room;
    vf_witness(text[0] == 'x', "inserted");
    vf_assert(out.size() == size_t(OLD + expect), "the longest prefix that fits");
    for (int i = 0; i < OLD; ++i) vf_assert(raw[i] == old[i], "earlier text stays");
    for (int i = 0; i < LEN; ++i)
    {
        if (OP == 2 && 2 * i < expect)
        {
            vf_assert(raw[OLD + 2 * i] == hex(text[i] >> 4), "high digit");
            vf_assert(raw[OLD + 2 * i + 1] == hex(text[i] & 15), "low digit");
        }
        if (OP != 2 && i < expect) vf_assert(raw[OLD + i] == char(text[i]), "as is");
    }
    for (int i = OLD + expect; i < CAP; ++i) vf_assert(raw[i] == 0, "nothing behind it changes");
}
