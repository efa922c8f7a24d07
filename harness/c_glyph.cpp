// C08, C09, F02: drawing characters and strings of an arbitrary font.
#include "canvas.h"
#include "font.h"
#ifndef LEN
#define LEN 2
#endif
// is the pixel of the watched place set in glyph i drawn with the pen at p?
static bool setIn(int i, P pen, P pixel)
{
    const int x = pixel.x - pen.x - glyphs[i].offset.width, y = pixel.y - pen.y - glyphs[i].offset.height;
    const int w = glyphs[i].size.width, h = glyphs[i].size.height;
    if (x < 0 || y < 0 || x >= w || y >= h) return false;
    const int bit = (y & 7) * w + (x & 7);      // w, h <= 8
    return bitmap[glyphs[i].bitmapOffset + bit / 8] & (0x80 >> (bit % 8));
}
void vf_harness()
{
    anyGlyphs();
#ifdef SHIFT
    glyphs[0].size = { 1, 1 };
    if (SHIFT) { glyphs[0].shift = SHIFT; glyphs[0].offset = { 1, -1 }; }
    descriptor.bitmap = embedded::ConstBytesView(bitmap, 1);
#endif
    descriptor.first = FIRST;
    descriptor.last = FIRST + GLYPHS - 1;
    const EmbeddedFont font(descriptor);
    Canvas c = makeCanvas();
    const P watched = anyPixel();
    fb.a = toBuffer(watched);
#ifdef NTH           // the NTH character lies near the canvas' corner
    const P pen { 2 - NTH * SHIFT, 3 };
#elif defined(FAR)
    const P pen { vf_nd_i32("x"), vf_nd_i32("y") };
    vf_assume(pen.x > -(1 << 29) && pen.x < 1 << 29 && pen.y > -(1 << 29) && pen.y < 1 << 29);
#else
    const P pen { int8_t(vf_nd_u8("x")), int8_t(vf_nd_u8("y")) };
#endif
#ifndef STRING
    const char ch = char(FIRST + vf_range(0, GLYPHS));
    const int own = glyphOf(uint8_t(ch)), i = own < 0 ? 0 : own;
    const int advance = c.drawCharAt(pen, ch, font);
    vf_assert((fb.hitsA > 0) == setIn(i, pen, watched), "exactly the glyph's visible pixels");
    vf_assert(advance == glyphs[i].shift, "returns the advance");
    vf_witness(fb.hitsA > 0, "drawn");
    vf_witness(pen.x < 0 && fb.hitsA > 0, "pen outside");
#else
    char text[LEN];
#ifdef SAME         // a long text of one character
    const int n = LEN;
    for (int i = 0; i < LEN; ++i) text[i] = char(FIRST);
#else
    const int n = vf_range(0, LEN);
    for (int i = 0; i < LEN; ++i) text[i] = char(FIRST + vf_range(0, GLYPHS));
#endif
    c.drawStringAt(pen, { text, size_t(n) }, font);
    bool expected = false;
    P p = pen;
    for (int i = 0; i < LEN; ++i)
        if (i < n)
        {
            const int own = glyphOf(uint8_t(text[i])), k = own < 0 ? 0 : own;
            expected = expected || setIn(k, p, watched);
            p.x += glyphs[k].shift;
        }
    vf_assert((fb.hitsA > 0) == expected, "exactly the characters' visible pixels, each at its pen position");
#ifdef NTH
    vf_assert(visible({ 3, 2 }), "set up");
#endif
    vf_witness(expected && n == LEN && pen.x < -3, "seen from outside");
    vf_witness(!expected && n == LEN, "not set");
#endif
}
