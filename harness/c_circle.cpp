// C06, C07: circles of every radius RMIN..RMAX, any centre.
#include "canvas.h"
#ifndef RMIN
#define RMIN 0
#endif
#ifndef RMAX
#define RMAX 6
#endif
static P watched, center;
template<int r> static void one(Canvas& c)
{
    fb.a = toBuffer(watched);
    const int dx = uint8_t(std::abs(watched.x - center.x)), dy = uint8_t(std::abs(watched.y - center.y)), d2 = dx * dx + dy * dy;
    const int lng = std::max(dx, dy);
    // the ideal circle passes within half a pixel of it (in the direction of its shorter axis)
    const bool belowOutside = r == 0 ? lng == 0 : d2 - lng < r * r;
    const bool aboveInside = d2 + lng >= r * r;
#ifdef FILLED
    c.drawCircle(center, r, true);
    if (dx != dy || !belowOutside || r == 0) vf_assert((fb.hitsA > 0) == belowOutside, "exactly the pixels within the circle rounded to the nearest pixel (diagonals at the edge are free)");
    if (dx == dy && d2 + lng < r * r) vf_assert(fb.hitsA > 0, "diagonals within are set");
#else
    c.drawCircle(center, r);
    if (dx != dy || !(belowOutside && aboveInside) || r == 0) vf_assert((fb.hitsA > 0) == (belowOutside && aboveInside), "exactly the nearest pixels (diagonals are free)");
#endif
    vf_witness(fb.hitsA && r == RMAX, "drawn");
    vf_witness(!fb.hitsA && r == RMAX, "not drawn");
}
template<int... r> static void all(Canvas& c, int sel, std::integer_sequence<int, r...>) { (void)((sel == RMIN + r ? (one<RMIN + r>(c), true) : false) || ...); }
void vf_harness()
{
    Canvas c = makeCanvas();
    watched = anyPixel();
    center = anyPoint(-RMAX - 1, MAXW + RMAX + 1);
    all(c, vf_range(RMIN, RMAX), std::make_integer_sequence<int, RMAX - RMIN + 1>());
    vf_witness(!visible(center) && fb.hitsA, "centre outside");
}
