// Contract models of two libstdc++ <charconv> internals (symbolic build only; the native replay runs the real ones).
// The real digit loop divides a symbolic 32/64-bit value repeatedly, which a SAT back end cannot invert.  The models
// state its contract instead: the number of decimal digits, and digits d_i with sum d_i*10^i == value.  When the harness
// built its value from digits (model_known_digits), that value reuses them, and other values of three and more digits get
// arbitrary ones (an over-approximation: what it reports is replayed on the real code).
#include "vf.h"
extern "C" uint8_t vf_any_u8();
static bool ghostSet;
static uint64_t ghostValue; static unsigned ghostLen; static uint8_t ghostDigits[20];
extern "C" void model_known_digits(uint64_t v, const uint8_t* d, unsigned n)
{
    ghostSet = true; ghostValue = v; ghostLen = n;
    for (unsigned i = 0; i < 20; ++i) ghostDigits[i] = i < n ? d[i] : 0;
}
// The harness doesn't look at the digits: any will do.
static bool anyDigits;
extern "C" void model_any_digits() { anyDigits = true; }
template<typename V, unsigned MAX> static inline unsigned digits(V v)
{
    if (ghostSet && static_cast<uint64_t>(v) == ghostValue) return ghostLen;
    V p = 10; unsigned n = 1;
    for (; n < MAX; ++n, p *= 10) if (v < p) break;
    return n;
}
template<typename V, typename W, unsigned MAX> static inline void render(char* first, unsigned len, V val)
{
    if (val < 10 && len == 1) { first[0] = static_cast<char>('0' + val); return; }
    if (val < 100 && len == 2)
    {
        const uint8_t v = static_cast<uint8_t>(val);
        first[0] = static_cast<char>('0' + v / 10);
        first[1] = static_cast<char>('0' + v % 10);
        return;
    }
    if (ghostSet || anyDigits)
    {
        const bool same = ghostSet && static_cast<uint64_t>(val) == ghostValue && len == ghostLen;
        for (unsigned i = 0; i < MAX; ++i)
            if (i < len)
            {
                const uint8_t d = vf_any_u8();
                vf_assume(d <= 9);
                first[i] = static_cast<char>('0' + (same ? ghostDigits[i] : d));
            }
        return;
    }
    W acc = 0;
    for (unsigned i = 0; i < MAX; ++i)
        if (i < len)
        {
            const uint8_t d = vf_any_u8();
            vf_assume(d <= 9);
            first[i] = static_cast<char>('0' + d);
            acc = acc * 10 + d;
        }
    vf_assume(acc == static_cast<W>(val));
}
unsigned len32(uint32_t v, int) __asm__("_ZNSt8__detail14__to_chars_lenIjEEjT_i");
unsigned len32(uint32_t v, int) { return digits<uint32_t, 10>(v); }
unsigned len64(uint64_t v, int) __asm__("_ZNSt8__detail14__to_chars_lenImEEjT_i");
unsigned len64(uint64_t v, int) { return digits<uint64_t, 20>(v); }
unsigned lenll(unsigned long long v, int) __asm__("_ZNSt8__detail14__to_chars_lenIyEEjT_i");
unsigned lenll(unsigned long long v, int) { return digits<uint64_t, 20>(v); }
void impl32(char* f, unsigned n, uint32_t v) __asm__("_ZNSt8__detail18__to_chars_10_implIjEEvPcjT_");
void impl32(char* f, unsigned n, uint32_t v) { render<uint32_t, uint64_t, 10>(f, n, v); }
void impl64(char* f, unsigned n, uint64_t v) __asm__("_ZNSt8__detail18__to_chars_10_implImEEvPcjT_");
void impl64(char* f, unsigned n, uint64_t v) { render<uint64_t, unsigned __int128, 20>(f, n, v); }
void implll(char* f, unsigned n, unsigned long long v) __asm__("_ZNSt8__detail18__to_chars_10_implIyEEvPcjT_");
void implll(char* f, unsigned n, unsigned long long v) { render<uint64_t, unsigned __int128, 20>(f, n, v); }
