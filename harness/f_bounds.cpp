// F02: a text drawn at the bounds' topLeft lies within the bounds' size; the width is tight.
#include "font.h"
#ifndef LEN
#define LEN 3
#endif
void vf_harness()
{
    anyGlyphs();
    descriptor.first = 'a';
    descriptor.last = 'a' + GLYPHS - 1;
    const EmbeddedFont font(descriptor);
    char text[LEN];
    const int n = vf_range(0, LEN);
    for (int i = 0; i < LEN; ++i) { text[i] = char('a' + vf_range(0, GLYPHS)); }
    const auto r = font.getTextBounds({ text + LEN - n, size_t(n) });
    if (n == 0)
    {
        vf_assert(r.size.width == 0 && r.size.height == 0, "empty text");
        return;
    }
    int pen = r.topLeft.x;
    int leftmost = 1 << 20, rightmost = -(1 << 20), top = 1 << 20, bottom = -(1 << 20);
    for (int i = 0; i < LEN; ++i)
    {
        if (i < LEN - n) continue;
        const int own = glyphOf(uint8_t(text[i])), k = own < 0 ? 0 : own;
        const int left = pen + glyphs[k].offset.width, up = r.topLeft.y + glyphs[k].offset.height;
        const int right = left + glyphs[k].size.width, down = up + glyphs[k].size.height;
        vf_assert(left >= 0 && right <= r.size.width, "every glyph within the width");
        vf_assert(up >= 0 && down <= r.size.height, "every glyph within the height");
        if (left < leftmost) leftmost = left;
        if (right > rightmost) rightmost = right;
        if (up < top) top = up;
        if (down > bottom) bottom = down;
        pen += glyphs[k].shift;
    }
    vf_assert(leftmost == 0 && rightmost == r.size.width, "no wider than the glyphs");
    vf_assert(bottom == r.size.height, "ends at the lowest glyph");
    vf_assert(top == 0 || top + r.topLeft.y >= 0 || r.topLeft.y == 0, "starts at the highest glyph or the baseline");
    vf_witness(n == LEN && r.topLeft.x > 0, "starts left of the pen");
    vf_witness(n == LEN && r.topLeft.y > 0, "above the baseline");
    vf_witness(n > 0 && r.size.width > 300, "wide");
}
