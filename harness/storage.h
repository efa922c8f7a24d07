// A PersistentStorage over a right-aligned region, driven together with a reference map through the public interface.
#pragma once
#include "vf.h"
#include "PersistentStorage.h"
#ifndef R
#define R 28
#endif
#ifndef REGION
#define REGION R
#endif
#ifndef NAMELEN
#define NAMELEN 4
#endif
using embedded::PersistentStorage;
using Small = uint8_t;      // two types of different sizes
using Large = uint32_t;
static uint8_t region[R];
static embedded::BytesView regionView(int n) { return { region + R - n, size_t(n) }; }
struct Name
{
    char c[8];
    int len;
    explicit Name(int maxLen = NAMELEN)
    {
        len = vf_range(0, maxLen);
        for (int i = 0; i < 8; ++i)
        {
            c[i] = 0;
            if (i < maxLen && i < len)
            {
                c[i] = char(vf_nd_u8("name"));
                vf_assume(c[i] != 0);
            }
        }
    }
    std::string_view view() const { return { c, size_t(len) }; }
    bool operator==(const Name& o) const
    {
        bool same = len == o.len;
        for (int i = 0; i < 8; ++i) same = same && c[i] == o.c[i];
        return same;
    }
};
struct Entry { Name name; bool large; uint32_t value; };
static bool set(PersistentStorage& s, const Name& n, bool large, uint32_t v)
{
    return large ? s.set<Large>(n.view(), v) : s.set<Small>(n.view(), uint8_t(v));
}
// presence and value
static bool get(const PersistentStorage& s, const Name& n, bool large, uint32_t& v)
{
    if (large)
    {
        auto r = s.get<Large>(n.view());
        if (r) v = *r;
        return r.has_value();
    }
    auto r = s.get<Small>(n.view());
    if (r) v = *r;
    return r.has_value();
}
static uint32_t clip(bool large, uint32_t v) { return large ? v : v & 0xFF; }
