// An arbitrary BufferedOut state, reached through the public interface: capacity CAP, any p <= CAP characters already
// written, any width/precision/fill.  The buffer is right-aligned in its object, so one byte too many is out of bounds,
// and the bytes before it are watched.
#pragma once
#include "vf.h"
#include "BufferedOut.h"
#ifndef PREFIX
#define PREFIX vf_range(0, c)
#endif
#ifndef CAP
#define CAP 24
#endif
// (arrays of their own: symbolic indexing into a bigger object is expensive for the solver)
static char raw[CAP];
static char before[CAP];
struct OutState
{
    int c;      // capacity
    int p;      // characters already there
    embedded::BufferedOut out;
    OutState()
    : c(CAP), p(PREFIX), out(embedded::MemoryView<char>(raw + CAP - c, size_t(c)))
    {
        vf_fill(before, CAP);
        for (int i = 0; i < CAP; ++i) raw[i] = before[i];
        out << std::string_view(before + CAP - c, size_t(p));
        vf_assert(int(out.size()) == p && int(out.capacity()) == c, "state set up");
    }
    const char* text() const { return raw + CAP - c; }
    int room() const { return c - p; }
    // what every insertion keeps: earlier characters, bytes outside the buffer, 0 <= size <= capacity
    void checkAppendOnly()
    {
        vf_assert(int(out.size()) >= p && int(out.size()) <= c, "size within capacity, nothing removed");
        vf_assert(int(out.capacity()) == c, "capacity unchanged");
        vf_assert(out.asStringView().data() == text(), "the buffer isn't replaced");
        for (int i = 0; i < CAP; ++i)
            if (i < CAP - c + p) vf_assert(raw[i] == before[i], "earlier characters and bytes outside the buffer unchanged");
    }
};
