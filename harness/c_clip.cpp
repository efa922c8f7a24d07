// C01: no primitive reaches outside the frame buffer, wherever and however rotated (asserted by the Recorder);
// what is far away draws nothing, and drawing ends.
#include "canvas.h"
#include "font.h"
#define FAR (1 << 28)
static int anywhere() { const int v = vf_nd_i32("far"); vf_assume(v >= -FAR && v <= FAR); return v; }
void vf_harness()
{
    Canvas c = makeCanvas();
    // the rotation may change between operations
    const P first { anywhere(), anywhere() };
    c.drawPixel(first);
    #ifdef THEN
    const int rotation = THEN;
#else
    const int rotation = vf_range(0, 3);
#endif
    c.setRotation(Canvas::Rotation(rotation));
    const P watched { vf_range(0, MAXW - 1), vf_range(0, MAXH - 1) };
    vf_assume(watched.x < fb.w && watched.y < fb.h);
    fb.a = watched;
    const P p { anywhere(), anywhere() };
    const bool away = p.x < -300 || p.y < -300 || p.x > 300 || p.y > 300;
#if OP == 0
    const S s { anywhere(), anywhere() };
    vf_assume(s.width >= 1 && s.height >= 1);
    c.drawFilledRectangle({ p, s });
    const bool none = p.x > 300 || p.y > 300 || p.x + s.width < 0 || p.y + s.height < 0;
    if (none) vf_assert(fb.hitsA == 0, "nothing drawn");
    if (p.x <= 0 && p.y <= 0 && p.x + s.width > 300 && p.y + s.height > 300) vf_assert(fb.hitsA > 0, "everything drawn");
#elif OP == 1
    c.drawCircle(p, vf_range(0, 2), vf_nd_bool("filled"));
    if (away) vf_assert(fb.hitsA == 0, "nothing drawn");
#elif OP == 2
    anyGlyphs();
    descriptor.first = descriptor.last = 'a';
    const EmbeddedFont font(descriptor);
    c.drawCharAt(p, 'a', font);
    if (away) vf_assert(fb.hitsA == 0, "nothing drawn");
#elif OP == 3
    c.drawLine(p, { p.x + vf_range(-5, 5), p.y + vf_range(-5, 5) });
    if (away) vf_assert(fb.hitsA == 0, "nothing drawn");
#elif OP == 4
    c.drawRectangle({ p, { vf_range(1, 5), vf_range(1, 5) } });
    if (away) vf_assert(fb.hitsA == 0, "nothing drawn");
#endif
    vf_witness(fb.hitsA > 0, "drawn");
    vf_witness(away, "away");
}
