/* Models of the C/C++ runtime functions the sources call (everything else is reported as unmodelled). */
static vf_ptr vfm_memcpy(vf_ptr d, vf_ptr s, vf_u64 n) { vf_memcpy(d, s, n); return d; }
static vf_ptr vfm_memmove(vf_ptr d, vf_ptr s, vf_u64 n) { vf_memmove(d, s, n); return d; }
static vf_ptr vfm_memset(vf_ptr d, vf_u32 c, vf_u64 n) { vf_memset(d, (vf_u8)c, n); return d; }
static vf_u64 vfm_strlen(vf_ptr s) { vf_u64 n = 0; while (s[n]) ++n; return n; }
static vf_u32 vfm_memcmp(vf_ptr a, vf_ptr b, vf_u64 n)
{
    for (vf_u64 i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? (vf_u32)-1 : 1;
    return 0;
}
static vf_u32 vfm_strcmp(vf_ptr a, vf_ptr b)
{
    vf_u64 i = 0;
    for (; a[i] && a[i] == b[i]; ++i) ;
    return a[i] == b[i] ? 0 : a[i] < b[i] ? (vf_u32)-1 : 1;
}
static vf_ptr vfm_memchr(vf_ptr a, vf_u32 c, vf_u64 n)
{
    for (vf_u64 i = 0; i < n; ++i) if (a[i] == (vf_u8)c) return a + i;
    return (vf_ptr)0;
}
static vf_u32 vfm_abs(vf_u32 a) { VF_UB(a != 0x80000000u, "abs(INT_MIN)"); return (vf_s32)a < 0 ? 0u - a : a; }
static vf_u64 vfm_labs(vf_u64 a) { VF_UB(a != 0x8000000000000000ull, "labs(LONG_MIN)"); return (vf_s64)a < 0 ? 0u - a : a; }
#define VF_HAVE_memcpy 1
#define VF_IMPL_memcpy vfm_memcpy
#define VF_HAVE_memmove 1
#define VF_IMPL_memmove vfm_memmove
#define VF_HAVE_memset 1
#define VF_IMPL_memset vfm_memset
#define VF_HAVE_strlen 1
#define VF_IMPL_strlen vfm_strlen
#define VF_HAVE_memcmp 1
#define VF_IMPL_memcmp vfm_memcmp
#define VF_HAVE_bcmp 1
#define VF_IMPL_bcmp vfm_memcmp
#define VF_HAVE_strcmp 1
#define VF_IMPL_strcmp vfm_strcmp
#define VF_HAVE_memchr 1
#define VF_IMPL_memchr vfm_memchr
#define VF_HAVE_abs 1
#define VF_IMPL_abs vfm_abs
#define VF_HAVE_labs 1
#define VF_IMPL_labs vfm_labs
#define VF_HAVE_llabs 1
#define VF_IMPL_llabs vfm_labs
static float vfm_fabsf(float a) { return __builtin_fabsf(a); }
static double vfm_fabs(double a) { return __builtin_fabs(a); }
#define VF_HAVE_fabsf 1
#define VF_IMPL_fabsf vfm_fabsf
#define VF_HAVE_fabs 1
#define VF_IMPL_fabs vfm_fabs
/* std::less orders pointers to different objects by address: needed only to know whether ranges overlap (models/stdexcept.cpp) */
#ifdef VF_CBMC
#define VF_HAVE_model_same_object 1
#define VF_IMPL_model_same_object(a, b) ((vf_u8)(__CPROVER_same_object(a, b) ? 1 : 0))
#else
#define VF_HAVE_model_same_object 1
#define VF_IMPL_model_same_object(a, b) 1
#endif
/* errno */
static int vfm_errno;
#define VF_HAVE___errno_location 1
#define VF_IMPL___errno_location() ((vf_ptr)&vfm_errno)
/* heap */
void *malloc(__SIZE_TYPE__); void free(void *);
#define VF_HAVE__Znwm 1
#ifdef VF_ALLOC_MAX     /* blocks of one size: symbolic sizes are expensive */
static vf_ptr vfm_new(vf_u64 n) { if (n > VF_ALLOC_MAX) VF_UNMODELLED("operator new of more than VF_ALLOC_MAX bytes"); return (vf_ptr)malloc(VF_ALLOC_MAX); }
#define VF_IMPL__Znwm(n) vfm_new(n)
#else
#define VF_IMPL__Znwm(n) ((vf_ptr)malloc(n))
#endif
#define VF_HAVE_malloc 1
#define VF_IMPL_malloc(n) ((vf_ptr)malloc(n))
#define VF_HAVE_free 1
#define VF_IMPL_free(p) free(p)
#define VF_HAVE__Znam 1
#define VF_IMPL__Znam(n) ((vf_ptr)malloc(n))
#define VF_HAVE__ZdlPv 1
#define VF_IMPL__ZdlPv(p) free(p)
#define VF_HAVE__ZdaPv 1
#define VF_IMPL__ZdaPv(p) free(p)
#define VF_HAVE__ZdlPvm 1
#define VF_IMPL__ZdlPvm(p, n) free(p)
#define VF_HAVE__ZdaPvm 1
#define VF_IMPL__ZdaPvm(p, n) free(p)
/* destructors registered at exit never run inside a harness */
#define VF_HAVE___cxa_atexit 1
#define VF_IMPL___cxa_atexit(a, b, c) 0
#define VF_HAVE___cxa_guard_acquire 1
#define VF_IMPL___cxa_guard_acquire(g) (*(g) == 0)
#define VF_HAVE___cxa_guard_release 1
#define VF_IMPL___cxa_guard_release(g) ((void)(*(g) = 1))
/* abnormal ends */
#define VF_HAVE___cxa_pure_virtual 1
#define VF_IMPL___cxa_pure_virtual() VF_TRAP("pure virtual call")
#define VF_HAVE_abort 1
#define VF_IMPL_abort() VF_TRAP("abort")
#define VF_HAVE__ZSt9terminatev 1
#define VF_IMPL__ZSt9terminatev() VF_TRAP("std::terminate")
#define VF_HAVE__ZSt21__glibcxx_assert_failPKciS0_S0_ 1
#define VF_IMPL__ZSt21__glibcxx_assert_failPKciS0_S0_(a, b, c, d) VF_TRAP("libstdc++ assertion")
/* exceptions */
static vf_ptr vfm_exc_alloc(vf_u64 n) { return (vf_ptr)malloc(n); }
#define VF_HAVE___cxa_allocate_exception 1
#define VF_IMPL___cxa_allocate_exception(n) vfm_exc_alloc(n)
#define VF_HAVE___cxa_free_exception 1
#define VF_IMPL___cxa_free_exception(p) free(p)
#ifdef VF_EXCEPTIONS
static void vfm_throw(vf_ptr o) { vf_exc_obj = o; vf_exc = 1; }
#define VF_HAVE___cxa_begin_catch 1
#define VF_IMPL___cxa_begin_catch(p) (p)
#define VF_HAVE___cxa_end_catch 1
#define VF_IMPL___cxa_end_catch() ((void)0)
#define VF_HAVE___cxa_rethrow 1
#define VF_IMPL___cxa_rethrow() vfm_throw(vf_exc_obj)
#define VF_THROW_(what) vfm_throw((vf_ptr)0)
#else
#define vfm_throw(o) VF_TRAP("exception thrown")
#define VF_THROW_(what) VF_TRAP("exception thrown: " what)
#endif
#define VF_HAVE___cxa_throw 1
#define VF_IMPL___cxa_throw(o, t, d) vfm_throw(o)
#define VF_HAVE__ZSt20__throw_length_errorPKc 1
#define VF_IMPL__ZSt20__throw_length_errorPKc(m) VF_THROW_("length_error")
#define VF_HAVE__ZSt24__throw_out_of_range_fmtPKcz 1
#define VF_IMPL__ZSt24__throw_out_of_range_fmtPKcz(...) VF_THROW_("out_of_range")
#define VF_HAVE__ZSt19__throw_logic_errorPKc 1
#define VF_IMPL__ZSt19__throw_logic_errorPKc(m) VF_THROW_("logic_error")
#define VF_HAVE__ZSt17__throw_bad_allocv 1
#define VF_IMPL__ZSt17__throw_bad_allocv() VF_THROW_("bad_alloc")
#define VF_HAVE__ZSt28__throw_bad_array_new_lengthv 1
#define VF_IMPL__ZSt28__throw_bad_array_new_lengthv() VF_THROW_("bad_array_new_length")
#define VF_HAVE__ZSt20__throw_out_of_rangePKc 1
#define VF_IMPL__ZSt20__throw_out_of_rangePKc(m) VF_THROW_("out_of_range")
