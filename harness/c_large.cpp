// C02..C08: large shapes: sizes and coordinates beyond a byte.  The shapes are concrete, the watched pixel (and bitmap) is not.
#include "canvas.h"
#ifdef GLYPH
#include "font.h"
#endif
void vf_harness()
{
    Canvas c = makeCanvas();
    const P watched = anyPixel();
    fb.a = toBuffer(watched);
    const int x = watched.x, y = watched.y;
#if defined(LINE)
    constexpr int e[] = { LINE };
    const P s { e[0], e[1] };
    c.drawLine(s, { e[2], e[3] });
    constexpr int dx = e[2] - e[0], dy = e[3] - e[1], adx = dx < 0 ? -dx : dx, ady = dy < 0 ? -dy : dy;
    constexpr bool steep = ady > adx;
    constexpr int length = steep ? ady : adx, rise = steep ? dx : dy, sign = (steep ? dy : dx) < 0 ? -1 : 1;
    const int along = sign * (steep ? y - s.y : x - s.x), cross = steep ? x - s.x : y - s.y, off = 2 * (cross * length - along * rise);
    if (along < 0 || along > length || off < -length || off > length) vf_assert(!fb.hitsA, "nothing over half a pixel away or beyond the ends");
    else if (off > -length && off < length) vf_assert(fb.hitsA == 1, "the nearest pixel is set once");
#elif defined(RECT)
    constexpr int r[] = { RECT };
    const bool inside = x >= r[0] && x < r[0] + r[2] && y >= r[1] && y < r[1] + r[3];
#ifdef FILLED
    c.drawFilledRectangle({ { r[0], r[1] }, S { r[2], r[3] } });
    vf_assert((fb.hitsA > 0) == inside, "exactly the pixels inside");
#else
    c.drawRectangle({ { r[0], r[1] }, S { r[2], r[3] } });
    vf_assert((fb.hitsA > 0) == (inside && (x == r[0] || x == r[0] + r[2] - 1 || y == r[1] || y == r[1] + r[3] - 1)), "exactly the edges");
#endif
#elif defined(CIRCLE)
    constexpr int k[] = { CIRCLE };
    constexpr int r = k[2];
    const int dx = x < k[0] ? k[0] - x : x - k[0], dy = y < k[1] ? k[1] - y : y - k[1], d2 = dx * dx + dy * dy, lng = dx > dy ? dx : dy;
#ifdef FILLED
    c.drawCircle({ k[0], k[1] }, r, true);
    if (dx != dy || d2 - lng >= r * r) vf_assert((fb.hitsA > 0) == (d2 - lng < r * r), "exactly the pixels within");
#else
    c.drawCircle({ k[0], k[1] }, r);
    const bool near = d2 - lng < r * r && d2 + lng >= r * r;
    if (dx != dy || !near) vf_assert((fb.hitsA > 0) == near, "exactly the nearest pixels");
#endif
#elif defined(GLYPH)
    constexpr int k[] = { GLYPH };      // pen, offset, advance
    vf_fill(bitmap, sizeof bitmap);
    glyphs[0] = { 0, { GW, GH }, k[4], { int8_t(k[2]), int8_t(k[3]) } };
    descriptor.bitmap = embedded::ConstBytesView(bitmap, sizeof bitmap);
    descriptor.glyph = embedded::MemoryView<const GlyphDescriptor>(glyphs, 1);
    descriptor.first = descriptor.last = 'A';
    const EmbeddedFont font(descriptor);
    const int advance = c.drawCharAt({ k[0], k[1] }, 'A', font);
    vf_assert(advance == k[4], "returns the advance");
    const int gx = x - k[0] - k[2], gy = y - k[1] - k[3];
    bool set = false;
    if (gx >= 0 && gy >= 0 && gx < GW && gy < GH)
    {
        const int bit = gy * GW + gx;
        set = bitmap[bit / 8] & (0x80 >> (bit % 8));
    }
    vf_assert((fb.hitsA > 0) == set, "exactly the glyph's visible pixels");
#endif
    vf_witness(fb.hitsA > 0, "drawn");
    vf_witness(!fb.hitsA, "not drawn");
}
