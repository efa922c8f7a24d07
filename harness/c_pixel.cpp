// C02: the four rotations, pixel by pixel; size and rotation; C01 for pixels: every int coordinate.
#include "canvas.h"
void vf_harness()
{
    Canvas c = makeCanvas();
    vf_assert(c.getRotation() == Canvas::Rotation(ROT), "rotation is kept");
    const P watched = anyPixel();
    fb.a = toBuffer(watched);
    // far from the ends of int, where mirroring overflows
    const P p { vf_nd_i32("x"), vf_nd_i32("y") };
    vf_assume(p.x > -(1 << 30) && p.x < 1 << 30 && p.y > -(1 << 30) && p.y < 1 << 30);
    c.drawPixel(p);
    vf_assert(fb.hitsA == (p == watched), "a visible pixel sets exactly its place in the frame buffer, others nothing");
    const embedded::Rect<int> r(anyPoint(-20, 20), S { vf_range(1, 20), vf_range(1, 20) });
    const auto t = c.transformCoords(r);
    // same corners
    const P c1 = toBuffer(r.topLeft), c2 = toBuffer({ r.topLeft.x + r.size.width - 1, r.topLeft.y + r.size.height - 1 });
    vf_assert(t.topLeft.x == std::min(c1.x, c2.x) && t.topLeft.y == std::min(c1.y, c2.y), "rotated rectangle starts at its first pixel");
    vf_assert(t.size.width == std::abs(c1.x - c2.x) + 1 && t.size.height == std::abs(c1.y - c2.y) + 1, "and has the rotated size");
    vf_witness(fb.hitsA == 1, "drawn");
    vf_witness(!visible(p), "outside");
}
