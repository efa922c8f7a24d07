// V02: a view covers exactly the memory it was made from, however it is made, converted or iterated.
#include "vf.h"
#include <iterator>
#include "MemoryView.h"
using namespace embedded;
#define N 5
static char chars[N];
static uint16_t words[N];
static std::array<uint8_t, N> bytes;
void vf_harness()
{
    vf_fill(chars, sizeof chars);
    vf_fill(words, sizeof words);
    vf_fill(bytes.data(), N);
    const int from = vf_range(0, N), to = vf_range(0, N);
    vf_assume(from <= to);
    const MemoryView<char> v(chars + from, chars + to);
    vf_assert(v.size() == size_t(to - from) && v.data() == chars + from && v.empty() == (from == to), "made of two pointers");
    const std::string_view sv = v;
    vf_assert(sv.size() == v.size() && sv.data() == v.data(), "as text");
    const MemoryView<const char> cv = v;
    vf_assert(cv.size() == v.size() && cv.data() == v.data(), "made constant");
    const std::string_view csv = cv;
    vf_assert(csv.size() == v.size() && csv.data() == v.data(), "constant as text");
    const MemoryView<uint16_t> w(words + from, size_t(to - from));
    const ConstBytesView b = w.as_bytes();
    vf_assert(b.size() == 2 * w.size() && b.size() == w.size_bytes(), "as bytes: all of it");
    const BytesView wb = w.as_writable_bytes();
    vf_assert(wb.size() == b.size() && wb.data() == b.data(), "as writable bytes: the same");
    const ConstBytesView cwb = MemoryView<const uint16_t>(w).as_bytes();
    vf_assert(cwb.size() == b.size() && cwb.data() == b.data(), "constant as bytes");
    for (int i = 0; i < N; ++i)
        if (i < to - from)
        {
            vf_assert(b[2 * i] == uint8_t(words[from + i]) && b[2 * i + 1] == uint8_t(words[from + i] >> 8), "bytes in memory order");
            vf_assert(v[i] == chars[from + i] && &v[i] == chars + from + i, "element access");
            vf_assert(*(v.rbegin() + i) == chars[to - 1 - i] && *(v.crbegin() + i) == chars[to - 1 - i], "reverse order");
            vf_assert(*(v.begin() + i) == chars[from + i] && *(v.cbegin() + i) == chars[from + i], "in order");
        }
    vf_assert(v.end() - v.begin() == to - from && v.cend() - v.cbegin() == to - from && v.rend() - v.rbegin() == to - from && v.crend() - v.crbegin() == to - from, "ends");
    if (to > from)
    {
        vf_assert(&v.front() == chars + from && &v.back() == chars + to - 1, "first and last");
        v.back() = 'x';
        wb[0] = uint8_t(wb[0] + 1);
        vf_assert(chars[to - 1] == 'x' && sv.back() == 'x', "writes go through");
    }
    const BytesView a = bytes;
    const ConstBytesView ca = bytes;
    const MemoryView<uint16_t> wa = words;
    const MemoryView<const uint16_t> cwa = wa;
    vf_assert(a.size() == N && a.data() == bytes.data() && ca.size() == N && ca.data() == bytes.data(), "made of std::array");
    vf_assert(wa.size() == N && wa.data() == words && wa.size_bytes() == 2 * N && cwa.size() == N && cwa.data() == words, "made of an array");
    const BytesView none;
    vf_assert(none.empty() && none.size() == 0 && none.begin() == none.end() && none.size_bytes() == 0, "empty");
    vf_witness(to > from, "not empty");
    vf_witness(to == from, "empty view");
}
