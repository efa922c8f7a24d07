// F01: every code shows its own glyph, codes the font has no glyph for show the first one.
#include "font.h"
void vf_harness()
{
    anyGlyphs();
    const int n = vf_range(1, GLYPHS);
    descriptor.glyph = embedded::MemoryView<const GlyphDescriptor>(glyphs, size_t(n));
    if (n < GLYPHS) descriptor.bitmap = embedded::ConstBytesView(bitmap, size_t(glyphs[n].bitmapOffset));
    descriptor.first = vf_nd_u8("first");
    descriptor.last = vf_nd_u8("last");
    vf_assume(descriptor.first <= '~' && descriptor.first <= descriptor.last);
    const EmbeddedFont font(descriptor);
    const char c = char(vf_nd_u8("char"));
    const auto r = font.getBitmap(c);
    const int own = glyphOf(uint8_t(c)), i = own < 0 ? 0 : own;
    vf_assert(r.effectiveSize.width == glyphs[i].size.width && r.effectiveSize.height == glyphs[i].size.height, "size of the glyph");
    vf_assert(r.offset.width == glyphs[i].offset.width && r.offset.height == glyphs[i].offset.height, "offset of the glyph");
    vf_assert(r.width == glyphs[i].shift, "advance of the glyph");
    vf_assert(r.bitmap.begin() == bitmap + glyphs[i].bitmapOffset, "its bitmap");
    vf_assert(r.bitmap.size() == sizes[i], "all of its bitmap, and nothing of the next one's");
    vf_witness(own > 0 && uint8_t(c) >= 0xA0, "second half");
    vf_witness(own == n - 1 && n == GLYPHS, "last glyph");
    vf_witness(own < 0 && uint8_t(c) > '~' && uint8_t(c) < 0xA0, "omitted code");
    vf_witness(own < 0 && uint8_t(c) < descriptor.first, "before the first");
    vf_witness(own < 0 && uint8_t(c) > descriptor.last, "after the last");
}
