// V02: views of many elements cover exactly the memory they were made from, however they are made or converted.
#include "vf.h"
#include <iterator>
#include "MemoryView.h"
using namespace embedded;
#define N 70000
static char chars[N];
static uint16_t words[N];
static std::array<uint8_t, N> bytes;
void vf_harness()
{
    const int from = vf_range(0, N), to = vf_range(0, N);
    vf_assume(from <= to);
    const size_t n = size_t(to - from);
    auto same = [&](const auto& v, const void* p, size_t n)
    {
        vf_assert(v.size() == n && v.data() == p && v.empty() == (n == 0), "exactly the memory it was made from");
    };
    const MemoryView<char> v(chars + from, chars + to);
    same(v, chars + from, n);
    same(MemoryView<char>(chars + from, n), chars + from, n);
    const MemoryView<const char> cv = v;
    same(cv, chars + from, n);
    const std::string_view sv = v, csv = cv;
    same(sv, chars + from, n);
    same(csv, chars + from, n);
    vf_assert(v.end() - v.begin() == to - from && v.cend() - v.cbegin() == to - from && v.rend() - v.rbegin() == to - from && v.crend() - v.crbegin() == to - from, "ends");
    vf_assert(cv.end() - cv.begin() == to - from && &*cv.begin() == chars + from, "ends");
    const MemoryView<uint16_t> w(words + from, words + to);
    same(w, words + from, n);
    vf_assert(w.size_bytes() == 2 * n, "size in bytes");
    same(w.as_bytes(), words + from, 2 * n);
    same(w.as_writable_bytes(), words + from, 2 * n);
    const MemoryView<const uint16_t> cw = w;
    same(cw, words + from, n);
    same(cw.as_bytes(), words + from, 2 * n);
    if (n > 0)
    {
        vf_assert(&v.front() == chars + from && &v.back() == chars + to - 1 && &w.back() == words + to - 1, "first and last");
        const int k = vf_range(0, N - 1);
        vf_assume(k < to - from);
        vf_assert(&v[k] == chars + from + k && &w[k] == words + from + k && &cw[k] == words + from + k, "element access");
        vf_assert(&*(v.begin() + k) == chars + from + k && &*(v.rbegin() + k) == chars + to - 1 - k, "in order and in reverse order");
    }
    const BytesView a = bytes;
    const ConstBytesView ca = bytes;
    const MemoryView<uint16_t> wa = words;
    const MemoryView<const uint16_t> cwa = wa;
    same(a, bytes.data(), N);
    same(ca, bytes.data(), N);
    same(wa, words, N);
    same(cwa, words, N);
    same(wa.as_bytes(), words, 2 * N);
    vf_witness(n > 65536, "large");
}
