// C03: lines: exactly one pixel per step of the longer axis, within half a pixel of the ideal line, ends included.
#include "canvas.h"
#ifndef LIM
#define LIM 8
#endif
void vf_harness()
{
    Canvas c = makeCanvas();
    const P s = anyPoint(-LIM, LIM), e = anyPoint(-LIM, LIM);
    const int dx = e.x - s.x, dy = e.y - s.y, adx = std::abs(dx), ady = std::abs(dy);
#ifdef STEEP
    vf_assume(ady > adx);
    const bool steep = true;
#else
    vf_assume(ady <= adx);
    const bool steep = false;
#endif
    const P watched = anyPixel();
    fb.a = toBuffer(watched);
    const P next = steep ? P { watched.x + 1, watched.y } : P { watched.x, watched.y + 1 };
    fb.b = toBuffer(next);
    c.drawLine(s, e);
    // along: steps of the longer axis from s; cross: pixels off s in the other
    const int length = steep ? ady : adx, rise = steep ? dx : dy, sign = (steep ? dy : dx) < 0 ? -1 : 1;
    const int along = sign * (steep ? watched.y - s.y : watched.x - s.x), cross = steep ? watched.x - s.x : watched.y - s.y;
    const bool drawn = fb.hitsA > 0;
    vf_assert(fb.hitsA <= 1, "a pixel is set once");
    const int off = 2 * (cross * length - along * rise);         // twice the distance times the length
    if (length == 0) vf_assert(drawn == (watched == s), "a point");
    else if (along < 0 || along > length) vf_assert(!drawn, "nothing beyond the ends");
    else
    {
        if (off < -length || off > length) vf_assert(!drawn, "nothing over half a pixel away");
        if (off > -length && off < length) vf_assert(drawn, "the nearest pixel is set");
        // halfway between two pixels: exactly one of them
        if (off == -length && visible(next)) vf_assert(drawn != (fb.hitsB > 0), "one pixel per step");
    }
    if (watched == s || watched == e) vf_assert(drawn, "both ends are set");
    vf_witness(drawn && along > 0 && along < length && rise != 0, "middle");
    vf_witness(!drawn && length > 3 && off > 0 && off < 2 * length, "missed");
    if (!ROT) vf_witness(off == -length && length > 3 && visible(next), "halfway");
    vf_witness(length > 3 && rise == 0, "straight");
#ifndef STEEP
    vf_witness(length == 0 && drawn, "point");
#endif
}
