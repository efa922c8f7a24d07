// An arbitrary value of an integer type VT, built from its decimal digits (so that the oracle needs no division).
#pragma once
#include "vf.h"
#include <limits>
static uint8_t d[20];
template<typename T> struct Decimal
{
    static constexpr bool sgn = std::numeric_limits<T>::is_signed;
    static constexpr unsigned MAXD = 
#ifdef MAXDIGITS
        MAXDIGITS;
#else
        std::numeric_limits<T>::digits10 + 1;
#endif
    using Acc = unsigned long long;
    unsigned len;
    bool neg;
    T value;
    Decimal()
    {
        len = unsigned(vf_range(1, MAXD));
        Acc acc = 0;
        for (unsigned i = 0; i < MAXD; ++i)
            if (i < len)
            {
                d[i] = vf_nd_u8("digit");
                vf_assume(d[i] <= 9);
                if (sizeof(T) > 4) vf_assume(acc < 1844674407370955161ull || (acc == 1844674407370955161ull && d[i] <= 5));
                acc = acc * 10 + d[i];
            }
        vf_assume(len == 1 || d[0] != 0);
        neg = sgn && vf_nd_bool("neg");
        unsigned long long mag = (unsigned long long)acc;
        vf_assume(mag <= (unsigned long long)std::numeric_limits<T>::max() + (neg ? 1 : 0));
        vf_assume(!(neg && mag == 0));
        value = neg ? static_cast<T>(0ull - mag) : static_cast<T>(mag);
        model_known_digits(mag, d, len);
    }
    int size() const { return int(len) + neg; }
    // i-th character of the rendering
    char at(int i) const { return neg ? (i == 0 ? '-' : char('0' + d[i - 1])) : char('0' + d[i]); }
};
