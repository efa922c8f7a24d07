// C04, C05: rectangles.
#include "canvas.h"
#ifndef LIM
#define LIM 10
#endif
void vf_harness()
{
    Canvas c = makeCanvas();
    const P watched = anyPixel();
    fb.a = toBuffer(watched);
    const embedded::Rect<int> r(anyPoint(-LIM, LIM), S { vf_range(1, LIM), vf_range(1, LIM) });
    const int right = r.topLeft.x + r.size.width - 1, bottom = r.topLeft.y + r.size.height - 1;
    const bool inside = watched.x >= r.topLeft.x && watched.x <= right && watched.y >= r.topLeft.y && watched.y <= bottom;
    const bool edge = inside && (watched.x == r.topLeft.x || watched.x == right || watched.y == r.topLeft.y || watched.y == bottom);
#ifdef FILLED
    c.drawFilledRectangle(r);
    vf_assert((fb.hitsA > 0) == inside, "exactly the rectangle's visible pixels");
#else
    c.drawRectangle(r);
    vf_assert((fb.hitsA > 0) == edge, "exactly the outline's visible pixels");
#endif
    vf_witness(edge, "edge");
    vf_witness(inside && !edge, "inner");
    vf_witness(!inside, "outside");
    vf_witness(inside && r.topLeft.x < 0 && bottom > canvasH(), "clipped");
}
