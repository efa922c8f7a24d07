// F03: the shipped font: every code has a drawable glyph; glyph bitmaps tile the table.
#include "vf.h"
#include "graphics/EmbeddedFonts.h"
using namespace embedded::fonts;
static void glyph(char c, bool has)
{
    const auto r = FreeSans15pt.getBitmap(c);
    const int pixels = r.effectiveSize.width * r.effectiveSize.height;
    vf_assert(int(r.bitmap.size()) == (pixels + 7) / 8, "the bitmap holds exactly the glyph's pixels");
    for (size_t i = 0; i < 64; ++i)
        if (i < r.bitmap.size())
        {
            volatile uint8_t b = r.bitmap[i];       // readable
            (void)b;
        }
    // trailing bits
    if (pixels % 8) vf_assert((r.bitmap.back() & (0xFF >> (pixels % 8))) == 0, "no stray bits after the glyph");
    vf_assert(r.width > 0, "the pen advances");
    vf_assert(r.offset.height <= 0 || !has, "on or above the baseline");
    vf_assert(r.offset.height + r.effectiveSize.height <= 8 && r.offset.height >= -35, "within the line");
}
void vf_harness()
{
    const char c = char(vf_nd_u8("char"));
    const uint8_t code = uint8_t(c);
    const bool has = code >= 0x20 && code <= 0x7E;
    glyph(c, false);
    const auto r = FreeSans15pt.getBitmap(c), space = FreeSans15pt.getBitmap(' ');
    if (!has) vf_assert(r.bitmap.data() == space.bitmap.data() && r.width == space.width, "codes without a glyph show a space");
    for (int i = 0; i < 2; ++i)
        if (i < int(space.bitmap.size())) vf_assert(space.bitmap[i] == 0, "a space is empty");
    if (has && code < 0x7E)
    {
        const auto n = FreeSans15pt.getBitmap(char(c + 1));
        vf_assert(n.bitmap.begin() == r.bitmap.end(), "the next glyph's bitmap follows");
    }
    vf_witness(code == 0x7E, "last");
    vf_witness(!has, "none");
}
