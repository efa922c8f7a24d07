// Models of libstdc++'s exception classes (symbolic build only; the native replay runs the real ones): an object with
// std::exception's virtual functions in their order, holding its text.
#include <string>
#include <cstring>
#include <new>
struct ModelError
{
    explicit ModelError(const char* s) { const size_t n = strlen(s); text = static_cast<char*>(operator new(n + 1)); memcpy(text, s, n + 1); }
    explicit ModelError(const std::string& s) { const size_t n = s.size(); text = static_cast<char*>(operator new(n + 1)); memcpy(text, s.data(), n); text[n] = 0; }
    virtual ~ModelError() {}
    virtual const char* what() const { return text; }
    char* text;
};
#define CTORS(NAME, SYM) \
    void NAME##_s(void* p, const std::string& s) __asm__("_ZNSt" SYM "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); \
    void NAME##_s(void* p, const std::string& s) { new (p) ModelError(s); } \
    void NAME##_c(void* p, const char* s) __asm__("_ZNSt" SYM "C1EPKc"); \
    void NAME##_c(void* p, const char* s) { new (p) ModelError(s); } \
    void NAME##_d(void* p) __asm__("_ZNSt" SYM "D1Ev"); \
    void NAME##_d(void*) {}
CTORS(runtime_error, "13runtime_error")
CTORS(logic_error, "11logic_error")
CTORS(invalid_argument, "16invalid_argument")
CTORS(out_of_range, "12out_of_range")
CTORS(length_error, "12length_error")
namespace std
{
void __throw_invalid_argument(const char* s) { throw ModelError(s); }
void __throw_out_of_range(const char* s) { throw ModelError(s); }
void __throw_length_error(const char* s) { throw ModelError(s); }
void __throw_logic_error(const char* s) { throw ModelError(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw ModelError(s); }
}
// std::string's check whether a text is its own
extern "C" bool model_same_object(const void*, const void*);
bool disjunct(const std::string* s, const char* p) __asm__("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc");
bool disjunct(const std::string* s, const char* p)
{
    if (!model_same_object(s->data(), p)) return true;
    return p < s->data() || s->data() + s->size() < p;
}
