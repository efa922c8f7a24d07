// An arbitrary small font: GLYPHS glyphs with arbitrary metrics; bitmaps packed one after another; FIRST..last.
#pragma once
#include "vf.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"
#ifndef GLYPHS
#define GLYPHS 3
#endif
#ifndef GW
#define GW 4
#endif
#ifndef GH
#define GH 3
#endif
#ifndef BM
#define BM ((GW * GH + 7) / 8)       // bytes per glyph at most
#endif
using namespace embedded::fonts;
#ifdef BIG      // bitmaps anywhere in the 64 KiB that offsets reach, contents not modelled
static uint8_t bitmap[65536 + BM];
#else
static uint8_t bitmap[GLYPHS * BM];
#endif
static GlyphDescriptor glyphs[GLYPHS];
static uint16_t sizes[GLYPHS];       // bytes of each glyph
static FontDescriptor descriptor;
static void anyGlyphs(bool symbolicSizes = true)
{
#ifdef BIG
    unsigned offset = vf_nd_u16("offset");
#else
    vf_fill(bitmap, sizeof bitmap);
    unsigned offset = 0;
#endif
    for (int i = 0; i < GLYPHS; ++i)
    {
        glyphs[i].size.width = uint8_t(symbolicSizes ? vf_range(0, GW) : GW);
        glyphs[i].size.height = uint8_t(symbolicSizes ? vf_range(0, GH) : GH);
        glyphs[i].shift = vf_nd_u8("shift");
        glyphs[i].offset.width = vf_nd_i8("offset");
        glyphs[i].offset.height = vf_nd_i8("offset");
        glyphs[i].bitmapOffset = uint16_t(offset);
        vf_assume(offset <= 0xFFFF);
        sizes[i] = uint16_t((glyphs[i].size.width * glyphs[i].size.height + 7) / 8);
        offset += symbolicSizes ? sizes[i] : unsigned(BM);
    }
    // exactly the bytes of the glyphs
    descriptor.bitmap = embedded::ConstBytesView(bitmap, size_t(offset));
    descriptor.glyph = embedded::MemoryView<const GlyphDescriptor>(glyphs, GLYPHS);
}
// the glyph that shows a code (-1: the font has none): codes count up from first, codes between '~' and 0xA0 have no glyphs
static int glyphOf(uint8_t code)
{
    if (code < descriptor.first || code > descriptor.last || (code > 0x7E && code < 0xA0)) return -1;
    int i = code - descriptor.first;
    if (code > 0x7E) i -= 0x21;
    return i < int(descriptor.glyph.size()) ? i : -1;
}
