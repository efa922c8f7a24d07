// A Canvas over a recording frame buffer of any size up to MAXW x MAXH, watched at two arbitrary pixels.
#pragma once
#include "vf.h"
#include <algorithm>
#include <string_view>
#include "graphics/Canvas.h"
#ifndef MAXW
#define MAXW 8
#endif
#ifndef MAXH
#define MAXH 8
#endif
#ifndef ROT
#define ROT 0
#endif
struct Recorder : FrameBufferBase
{
    int w, h, hitsA = 0, hitsB = 0;
    embedded::Point<int> a { -1, -1 }, b { -1, -1 };    // watched, in the buffer's coordinates
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override { vf_assert(0, "drawing doesn't clear"); }
    void setColor(uint32_t) override { vf_assert(0, "drawing doesn't change the colour"); }
    void drawPixel(int x, int y) override
    {
        vf_assert(x >= 0 && x < w && y >= 0 && y < h, "only pixels of the frame buffer are drawn");
        hitsA += x == a.x && y == a.y;
        hitsB += x == b.x && y == b.y;
    }
};
static Recorder fb;
using P = embedded::Point<int>;
using S = embedded::Size<int>;
// where the pixel p of a canvas rotated by ROT is in the frame buffer, and back
static P toBuffer(P p)
{
    if (ROT == 1) return { fb.w - 1 - p.y, p.x };
    if (ROT == 2) return { fb.w - 1 - p.x, fb.h - 1 - p.y };
    if (ROT == 3) return { p.y, fb.h - 1 - p.x };
    return p;
}
static int canvasW() { return ROT & 1 ? fb.h : fb.w; }
static int canvasH() { return ROT & 1 ? fb.w : fb.h; }
static bool visible(P p) { return p.x >= 0 && p.y >= 0 && p.x < canvasW() && p.y < canvasH(); }
static Canvas makeCanvas()
{
#ifdef FIXED
    fb.w = MAXW;
    fb.h = MAXH;
#else
    fb.w = vf_range(1, MAXW);
    fb.h = vf_range(1, MAXH);
#endif
    Canvas c(fb);
    c.setRotation(Canvas::Rotation(ROT));
    vf_assert(c.getSize().width == canvasW() && c.getSize().height == canvasH(), "size of the rotated canvas");
    return c;
}
// an arbitrary visible pixel, in canvas coordinates
static P anyPixel()
{
    const P p { vf_range(0, (ROT & 1 ? MAXH : MAXW) - 1), vf_range(0, (ROT & 1 ? MAXW : MAXH) - 1) };
    vf_assume(visible(p));
    return p;
}
static P anyPoint(int lo, int hi) { return { vf_range(lo, hi), vf_range(lo, hi) }; }
