// P01, P02: the frame buffer: pixel format, isolation of pixels, clear, colour, dimensions.
// Pixels are packed in rows, from the most significant bit on; colours wider than a byte are big-endian.
#include "vf.h"
#include "graphics/SimpleFrameBuffer.h"
#ifndef W
#define W 8
#endif
#ifndef H
#define H 3
#endif
#ifndef DEPTH
#define DEPTH 1
#endif
#define SIZE (W * H * DEPTH / 8)
static SimpleFrameBuffer<W, H, DEPTH> fb;
static uint8_t before[SIZE];
static uint32_t anyColor() { const uint32_t c = vf_nd_u32("color"); if (DEPTH < 32) vf_assume(c >> (DEPTH & 31) == 0); return c; }
// the expected byte i of a picture that is `before` except pixel (x, y), or all pixels when all, of colour c
static uint8_t expected(int i, bool all, int x, int y, uint32_t c)
{
    uint8_t r = before[i];
    for (int k = 0; k < 8; ++k)
    {
        const int bit = i * 8 + k, pixel = bit / DEPTH, inPixel = bit % DEPTH;    // constants after unwinding
        if (all || (x == pixel % W && y == pixel / W))
        {
            const uint8_t m = uint8_t(0x80 >> k);
            r = uint8_t((c >> (DEPTH - 1 - inPixel)) & 1 ? r | m : r & ~m);
        }
    }
    return r;
}
void vf_harness()
{
    FrameBufferBase& b = fb;
    const embedded::BytesView image = b.getImage();
    vf_assert(b.getWidth() == W && b.getHeight() == H, "dimensions");
    vf_assert(image.size() == SIZE, "image size");
    const FrameBufferBase& cb = b;
    vf_assert(cb.getImage().size() == SIZE && cb.getImage().data() == image.data(), "constant image is the image");
    vf_fill(before, SIZE);
    for (int i = 0; i < SIZE; ++i) image[i] = before[i];
    const int x = vf_range(0, W - 1), y = vf_range(0, H - 1);
    uint32_t c = anyColor();
#if OP == 0     // the selected colour, possibly the initial one (all ones)
    bool all = false;
    if (vf_nd_bool("select")) b.setColor(c); else c = DEPTH == 32 ? ~0u : (1u << (DEPTH & 31)) - 1;
    b.drawPixel(x, y);
#elif OP == 1   // an explicit colour doesn't change the selected one
    bool all = false;
    const uint32_t other = anyColor();
    b.setColor(other);
    fb.drawPixel(x, y, c);
#elif OP == 2   // clear
    bool all = true;
    const uint32_t other = anyColor();
    b.setColor(other);
    b.clear(c);
#endif
    for (int i = 0; i < SIZE; ++i) vf_assert(image[i] == expected(i, all, x, y, c), "exactly the expected pixels set");
    vf_witness(x == W - 1 && y == H - 1, "last pixel");
    vf_witness(c == 0, "colour 0");
#if OP != 0
    for (int i = 0; i < SIZE; ++i) before[i] = image[i];
    b.drawPixel(x, y);
    for (int i = 0; i < SIZE; ++i) vf_assert(image[i] == expected(i, false, x, y, other), "the selected colour is kept");
#endif
}
