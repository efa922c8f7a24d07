// K02: characters given one by one reach iconv as the sequences they form; the result is what iconv made of them.
#include "vf.h"
#include "gfx-font-converter/EncodingConverter.h"
#include <stdexcept>
#ifndef STEPS
#define STEPS 5
#endif
void mock_write(int, const char*, size_t) {}
// iconv: a converter whose sequences are told by the harness
static int openCount, closeCount;
static bool openFails; static int openError;
static int handle;
static uint8_t pending[8]; static unsigned pendingCount;      // the bytes of the started sequence, this character included
static uint8_t outcome;                                       // 0: complete, 1: incomplete, 2: not a valid sequence
static uint8_t made[4]; static unsigned madeCount;
static bool called;
static const char *openTo, *openFrom;
extern "C" iconv_t mock_iconv_open(const char* to, const char* from)
{
    openTo = to; openFrom = from;
    if (openFails) { errno = openError; return iconv_t(-1); }
    ++openCount;
    return &handle;
}
extern "C" int mock_iconv_close(iconv_t cd) { vf_assert(cd == &handle, "closes what was opened"); ++closeCount; return 0; }
extern "C" size_t mock_iconv(iconv_t cd, char** in, size_t* inLeft, char** out, size_t* outLeft)
{
    vf_assert(cd == &handle && openCount == 1 && closeCount == 0, "the converter is open");
    if (in == nullptr || *in == nullptr) return 0;       // resets the state
    vf_assert(!called, "one sequence at a time");
    called = true;
    vf_assert(*inLeft == pendingCount, "the started sequence and the new character");
    for (unsigned i = 0; i < 4; ++i)
        if (i < pendingCount) vf_assert(uint8_t((*in)[i]) == pending[i], "the characters in order");
    vf_assert(*outLeft >= 4, "room for a character");
    if (outcome == 1) { errno = EINVAL; return size_t(-1); }
    if (outcome == 2) { errno = EILSEQ; return size_t(-1); }
    for (unsigned i = 0; i < 4; ++i)
        if (i < madeCount) *(*out)++ = char(made[i]);
    *outLeft -= madeCount;
    *in += *inLeft;
    *inLeft = 0;
    return 0;
}
static void step(EncodingConverter& c, uint8_t b)
{
    called = false;
    if (RAW)
    {
        const uint32_t v = c.convertRaw(char(b));
        uint32_t want = 0;
        if (outcome == 0) __builtin_memcpy(&want, made, 4);
        vf_assert(v == want, "the character's code, or 0 without one");
    }
    else
    {
        const std::string s = c.convert(char(b));
        vf_assert(s.size() == (outcome == 0 ? madeCount : 0), "as many characters as iconv made");
        for (unsigned i = 0; i < 4; ++i)
            if (i < s.size()) vf_assert(uint8_t(s[i]) == made[i], "the characters iconv made");
    }
    vf_assert(called, "converted");
}
static void use(EncodingConverter& c)
{
    for (int k = 0; k < STEPS; ++k)
    {
        const uint8_t b = vf_nd_u8("character"), what = vf_nd_u8("outcome");
        pending[pendingCount++] = b;
        for (int i = 0; i < 4; ++i) made[i] = vf_nd_u8("made");
        outcome = 0;                // each outcome on its own path
        madeCount = 0;
        if (what == 0) { outcome = 1; vf_assume(pendingCount < 4); step(c, b); outcome = 1; }     // no sequence is longer than 4
        else if (what == 1) { outcome = 2; step(c, b); outcome = 2; }
        else if (what == 2) { made[2] = made[3] = 0; madeCount = 2; step(c, b); }
        else if (what == 3) { made[3] = 0; madeCount = 3; step(c, b); }
        else if (what == 4) { madeCount = 4; step(c, b); }
        else { made[1] = made[2] = made[3] = 0; madeCount = 1; step(c, b); }
        vf_witness(outcome == 0 && (pendingCount == 3 || STEPS < 3), "sequence");
        vf_witness(outcome == 2 && (pendingCount == 2 || STEPS < 2), "invalid");
        if (outcome != 1) pendingCount = 0;
    }
}
static void run()
{
    static const char from[] = "F", to[] = "T";
    bool thrown = false;
    try
    {
        EncodingConverter c(from, to);
        vf_assert(!openFails, "unavailable conversions are reported");
        vf_assert(openTo == to && openFrom == from, "the conversion asked for");
#ifndef FAILS
        use(c);
#endif
        vf_assert(closeCount == 0, "open while in use");
    }
    catch (const std::runtime_error& e)
    {
        thrown = true;
        vf_assert(e.what()[0] != 0, "with a message");
    }
    vf_assert(thrown == openFails, "an error exactly when the conversion isn't available");
    vf_assert(openCount == closeCount, "closed once");
}
void vf_harness()
{
#ifdef FAILS
    openFails = true;
    const uint8_t why = vf_nd_u8("why");
    if (why == 0) { openError = EINVAL; run(); }
    else if (why == 1) { openError = ENOMEM; run(); }
    else { openError = EMFILE; run(); }
#else
    run();
#endif
}
