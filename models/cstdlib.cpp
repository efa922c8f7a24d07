// Models of C library functions (symbolic build only; the native replay runs the real ones, in the C locale).
#include <cerrno>
#include <climits>
extern "C" int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" long model_strtol(const char* s, char** end, int base) __asm__("__isoc23_strtol");
extern "C" long model_strtol(const char* s, char** end, int base)
{
    const char* p = s;
    while (*p == ' ' || (*p >= '\t' && *p <= '\r')) ++p;
    const bool negative = *p == '-';
    if (*p == '-' || *p == '+') ++p;
    if (base != 10) __builtin_trap();
    if (*p < '0' || *p > '9') { if (end) *end = const_cast<char*>(s); return 0; }
    unsigned long v = 0;
    bool over = false;
    for (; *p >= '0' && *p <= '9'; ++p)
    {
        if (v > (static_cast<unsigned long>(LONG_MAX) + negative - static_cast<unsigned long>(*p - '0')) / 10) over = true;
        v = v * 10 + static_cast<unsigned long>(*p - '0');
    }
    if (end) *end = const_cast<char*>(p);
    if (over) { errno = ERANGE; return negative ? LONG_MIN : LONG_MAX; }
    return negative ? static_cast<long>(0ul - v) : static_cast<long>(v);
}
extern "C" long strtol_(const char* s, char** end, int base) __asm__("strtol");
extern "C" long strtol_(const char* s, char** end, int base) { return model_strtol(s, end, base); }
