// P01: large frame buffers: offsets beyond 8 and 16 bits.  The pixels are concrete, the colours aren't.
#include "vf.h"
#include "graphics/SimpleFrameBuffer.h"
static SimpleFrameBuffer<W, H, DEPTH> fb;
static const int px[] = { W - 1, 0, W / 3, W - 1 }, py[] = { H - 1, H - 1, H / 2, 0 };
#define PIXELS 4
static uint32_t at(const embedded::BytesView image, long pixel)
{
    uint32_t r = 0;
    for (int k = 0; k < DEPTH; ++k)
    {
        const long bit = pixel * DEPTH + k;
        r = r << 1 | (image[size_t(bit / 8)] >> (7 - bit % 8) & 1u);
    }
    return r;
}
void vf_harness()
{
    FrameBufferBase& b = fb;
    const embedded::BytesView image = b.getImage();
    vf_assert(b.getWidth() == W && b.getHeight() == H && image.size() == size_t(W) * H * DEPTH / 8, "dimensions");
    uint32_t c[PIXELS];
    for (int i = 0; i < PIXELS; ++i)
    {
        c[i] = vf_nd_u32("color");
        if (DEPTH < 32) vf_assume(c[i] >> (DEPTH & 31) == 0);
        b.setColor(c[i]);
        b.drawPixel(px[i], py[i]);
    }
    for (int i = 0; i < PIXELS; ++i)
    {
        const long pixel = long(py[i]) * W + px[i];
        vf_assert(at(image, pixel) == c[i], "the pixel has its colour");
        // where it would be with offsets cut to 8 or 16 bits, and its neighbours
        const long others[] = { pixel - 1, pixel + 1, pixel % 65536, pixel % 256, pixel * DEPTH / 8 % 65536 * 8 / DEPTH, pixel * DEPTH / 8 % 256 * 8 / DEPTH, pixel * DEPTH % 65536 / DEPTH, pixel - W, pixel + W };
        for (const long o : others)
        {
            bool drawn = o < 0 || o >= long(W) * H;
            for (int k = 0; k < PIXELS; ++k) drawn = drawn || o == long(py[k]) * W + px[k];
            if (!drawn) vf_assert(at(image, o) == 0, "others stay");
        }
    }
    vf_witness(c[0] == 1 && c[1] == 0, "drawn");
}
