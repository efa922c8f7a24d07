// G01: geometry.
#include "vf.h"
#include <type_traits>
#include "graphics/BaseGeometry.h"
using namespace embedded;
#ifndef GT
#define GT int
#endif
#ifndef BITS
#define BITS 15
#endif
static GT any() { return GT(int32_t(vf_nd_u32("coordinate") << (32 - BITS)) >> (32 - BITS)); }
template<int bits> static GT few() { return GT(int32_t(vf_nd_u32("entry") << (32 - bits)) >> (32 - bits)); }
#ifndef SMALL
template<int k> static void scaling(Size<GT> s)
{
    const auto scaled = s * GT(k);
    vf_assert(scaled.width == s.width * k && scaled.height == s.height * k, "scaled");
    const auto part = scaled / GT(k);
    vf_assert(part.width == s.width && part.height == s.height, "division undoes scaling");
    const auto cut = s / GT(k);
    const int rest = s.width - cut.width * k;
    vf_assert(rest >= 0 && rest < (k < 0 ? -k : k), "division rounds down");
}
#endif
void vf_harness()
{
    const Point<GT> p { any(), any() };
#ifdef MATRIX
    const GT a = few<3>(), b = few<3>(), c = few<3>(), d = few<3>();
    const auto v = Matrix2x2<GT>(a, b, c, d) * p;
    vf_assert(v.x == a * p.x + b * p.y && v.y == c * p.x + d * p.y, "matrix");
    vf_witness(v.x > p.x, "away");
#else
    const Size<GT> s { any(), any() }, t { any(), any() };
    vf_assume(s.width > 0 && s.height > 0);
    const Rect<GT> r(p, s);
    const auto q = p + t;
    vf_assert(q.x == p.x + t.width && q.y == p.y + t.height, "moved point");
    auto q2 = p;
    vf_assert(&(q2 += t) == &q2 && q2 == q && !(q2 != q), "moved in place");
    vf_assert((p == q) == (t.width == 0 && t.height == 0) && (p != q) == !(p == q), "equality");
    const Rect<GT> m = r + t;
    vf_assert(m.topLeft == q && m.size.width == s.width && m.size.height == s.height, "moved rectangle keeps its size");
    auto m2 = r;
    m2 += t;
    vf_assert(m2.topLeft == q && m2.size.width == s.width && m2.size.height == s.height, "moved rectangle in place");
    vf_assert(r.bottomLeft() == (Point<GT> { p.x, GT(p.y + s.height - 1) }), "bottom left is inside");
    vf_assert(r.topRight() == (Point<GT> { GT(p.x + s.width - 1), p.y }), "top right is inside");
    vf_assert(r.bottomRight() == (Point<GT> { GT(p.x + s.width - 1), GT(p.y + s.height - 1) }), "bottom right is inside");
    const Rect<int> wide(r);
    vf_assert(wide.topLeft.x == p.x && wide.topLeft.y == p.y && wide.size.width == s.width && wide.size.height == s.height, "converted rectangle");
#ifndef SMALL
    const auto sum = s + t, dif = s - t;
    vf_assert(sum.width == s.width + t.width && sum.height == s.height + t.height && dif.width == s.width - t.width && dif.height == s.height - t.height, "sizes add up");
    const auto back = (s + t) - t;
    vf_assert(back.width == s.width && back.height == s.height, "subtraction undoes addition");
    scaling<K>(s);
#else
    const auto dif = s - t;
    vf_assert(dif.width == s.width - t.width && dif.height == s.height - t.height, "sizes subtract");
    const auto v = Matrix2x2<GT>(0, -1, 1, 0) * p;
    vf_assert(v.x == -p.y && v.y == p.x, "quarter turn");
#endif
    vf_witness(t.width < 0, "left");
    vf_witness(p == q, "same");
#endif
}
