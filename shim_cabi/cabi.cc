// The C symbols of the compiler-builtins style static library behind the batch C ABI of the main shim.
#include <cstring>
#include <cstdint>
#include <cstddef>
typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128; typedef int32_t i32;
template <class T, class B> static inline T fb(B b) { T t; static_assert(sizeof t == sizeof b); memcpy(&t, &b, sizeof t); return t; }
template <class B, class T> static inline B tb(T t) { B b; static_assert(sizeof t == sizeof b); memcpy(&b, &t, sizeof t); return b; }
#define X extern "C" __attribute__((visibility("default")))
#define LOOP for (size_t i = 0; i < n; i++) { *(volatile size_t *)p = i;
#define END } *p = n; return 0; }
// canary around the out-parameter: the callee may write that object and nothing else
template <class T> struct Out { u64 a; T v; u64 b; Out() : a(0x5a5a5a5a5a5a5a5a), b(0xa5a5a5a5a5a5a5a5) { memset((void *)&v, 0x77, sizeof v); } bool ok() const { return a == 0x5a5a5a5a5a5a5a5a && b == 0xa5a5a5a5a5a5a5a5; } };
#include <cstdlib>
extern "C" void rust_eh_personality() { abort(); }
X void vb_init() {}
X void vb_last_panic(char *o) { strcpy(o, "memory next to the out-parameter was overwritten"); }
extern "C" double frexp(double, int *);
X int vb_frexp(size_t n, size_t *p, const u64 *x, u64 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u64>(frexp(fb<double>(x[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" float frexpf(float, int *);
X int vb_frexpf(size_t n, size_t *p, const u32 *x, u32 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u32>(frexpf(fb<float>(x[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" double acos(double);
X int vb_acos(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(acos(fb<double>(x[i]))); END
extern "C" float acosf(float);
X int vb_acosf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(acosf(fb<float>(x[i]))); END
extern "C" double acosh(double);
X int vb_acosh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(acosh(fb<double>(x[i]))); END
extern "C" float acoshf(float);
X int vb_acoshf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(acoshf(fb<float>(x[i]))); END
extern "C" double asin(double);
X int vb_asin(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(asin(fb<double>(x[i]))); END
extern "C" float asinf(float);
X int vb_asinf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(asinf(fb<float>(x[i]))); END
extern "C" double asinh(double);
X int vb_asinh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(asinh(fb<double>(x[i]))); END
extern "C" float asinhf(float);
X int vb_asinhf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(asinhf(fb<float>(x[i]))); END
extern "C" double atan(double);
X int vb_atan(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(atan(fb<double>(x[i]))); END
extern "C" double atan2(double, double);
X int vb_atan2(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(atan2(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float atan2f(float, float);
X int vb_atan2f(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(atan2f(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" float atanf(float);
X int vb_atanf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(atanf(fb<float>(x[i]))); END
extern "C" double atanh(double);
X int vb_atanh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(atanh(fb<double>(x[i]))); END
extern "C" float atanhf(float);
X int vb_atanhf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(atanhf(fb<float>(x[i]))); END
extern "C" double cbrt(double);
X int vb_cbrt(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(cbrt(fb<double>(x[i]))); END
extern "C" float cbrtf(float);
X int vb_cbrtf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(cbrtf(fb<float>(x[i]))); END
extern "C" double ceil(double);
X int vb_ceil(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(ceil(fb<double>(x[i]))); END
extern "C" float ceilf(float);
X int vb_ceilf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(ceilf(fb<float>(x[i]))); END
extern "C" __float128 ceilf128(__float128);
X int vb_ceilf128(size_t n, size_t *p, const u128 *x, u128 *o) { LOOP o[i] = tb<u128>(ceilf128(fb<__float128>(x[i]))); END
extern "C" _Float16 ceilf16(_Float16);
X int vb_ceilf16(size_t n, size_t *p, const u16 *x, u16 *o) { LOOP o[i] = tb<u16>(ceilf16(fb<_Float16>(x[i]))); END
extern "C" double copysign(double, double);
X int vb_copysign(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(copysign(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float copysignf(float, float);
X int vb_copysignf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(copysignf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" __float128 copysignf128(__float128, __float128);
X int vb_copysignf128(size_t n, size_t *p, const u128 *x, const u128 *y, u128 *o) { LOOP o[i] = tb<u128>(copysignf128(fb<__float128>(x[i]), fb<__float128>(y[i]))); END
extern "C" _Float16 copysignf16(_Float16, _Float16);
X int vb_copysignf16(size_t n, size_t *p, const u16 *x, const u16 *y, u16 *o) { LOOP o[i] = tb<u16>(copysignf16(fb<_Float16>(x[i]), fb<_Float16>(y[i]))); END
extern "C" double cos(double);
X int vb_cos(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(cos(fb<double>(x[i]))); END
extern "C" float cosf(float);
X int vb_cosf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(cosf(fb<float>(x[i]))); END
extern "C" double cosh(double);
X int vb_cosh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(cosh(fb<double>(x[i]))); END
extern "C" float coshf(float);
X int vb_coshf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(coshf(fb<float>(x[i]))); END
extern "C" double erf(double);
X int vb_erf(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(erf(fb<double>(x[i]))); END
extern "C" double erfc(double);
X int vb_erfc(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(erfc(fb<double>(x[i]))); END
extern "C" float erfcf(float);
X int vb_erfcf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(erfcf(fb<float>(x[i]))); END
extern "C" float erff(float);
X int vb_erff(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(erff(fb<float>(x[i]))); END
extern "C" double exp(double);
X int vb_exp(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(exp(fb<double>(x[i]))); END
extern "C" double exp10(double);
X int vb_exp10(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(exp10(fb<double>(x[i]))); END
extern "C" float exp10f(float);
X int vb_exp10f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(exp10f(fb<float>(x[i]))); END
extern "C" double exp2(double);
X int vb_exp2(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(exp2(fb<double>(x[i]))); END
extern "C" float exp2f(float);
X int vb_exp2f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(exp2f(fb<float>(x[i]))); END
extern "C" float expf(float);
X int vb_expf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(expf(fb<float>(x[i]))); END
extern "C" double expm1(double);
X int vb_expm1(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(expm1(fb<double>(x[i]))); END
extern "C" float expm1f(float);
X int vb_expm1f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(expm1f(fb<float>(x[i]))); END
extern "C" double fabs(double);
X int vb_fabs(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(fabs(fb<double>(x[i]))); END
extern "C" float fabsf(float);
X int vb_fabsf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(fabsf(fb<float>(x[i]))); END
extern "C" __float128 fabsf128(__float128);
X int vb_fabsf128(size_t n, size_t *p, const u128 *x, u128 *o) { LOOP o[i] = tb<u128>(fabsf128(fb<__float128>(x[i]))); END
extern "C" _Float16 fabsf16(_Float16);
X int vb_fabsf16(size_t n, size_t *p, const u16 *x, u16 *o) { LOOP o[i] = tb<u16>(fabsf16(fb<_Float16>(x[i]))); END
extern "C" double fdim(double, double);
X int vb_fdim(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(fdim(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float fdimf(float, float);
X int vb_fdimf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(fdimf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" __float128 fdimf128(__float128, __float128);
X int vb_fdimf128(size_t n, size_t *p, const u128 *x, const u128 *y, u128 *o) { LOOP o[i] = tb<u128>(fdimf128(fb<__float128>(x[i]), fb<__float128>(y[i]))); END
extern "C" _Float16 fdimf16(_Float16, _Float16);
X int vb_fdimf16(size_t n, size_t *p, const u16 *x, const u16 *y, u16 *o) { LOOP o[i] = tb<u16>(fdimf16(fb<_Float16>(x[i]), fb<_Float16>(y[i]))); END
extern "C" double floor(double);
X int vb_floor(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(floor(fb<double>(x[i]))); END
extern "C" float floorf(float);
X int vb_floorf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(floorf(fb<float>(x[i]))); END
extern "C" __float128 floorf128(__float128);
X int vb_floorf128(size_t n, size_t *p, const u128 *x, u128 *o) { LOOP o[i] = tb<u128>(floorf128(fb<__float128>(x[i]))); END
extern "C" _Float16 floorf16(_Float16);
X int vb_floorf16(size_t n, size_t *p, const u16 *x, u16 *o) { LOOP o[i] = tb<u16>(floorf16(fb<_Float16>(x[i]))); END
extern "C" double fma(double, double, double);
X int vb_fma(size_t n, size_t *p, const u64 *x, const u64 *y, const u64 *z, u64 *o) { LOOP o[i] = tb<u64>(fma(fb<double>(x[i]), fb<double>(y[i]), fb<double>(z[i]))); END
extern "C" float fmaf(float, float, float);
X int vb_fmaf(size_t n, size_t *p, const u32 *x, const u32 *y, const u32 *z, u32 *o) { LOOP o[i] = tb<u32>(fmaf(fb<float>(x[i]), fb<float>(y[i]), fb<float>(z[i]))); END
extern "C" double fmax(double, double);
X int vb_fmax(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(fmax(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float fmaxf(float, float);
X int vb_fmaxf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(fmaxf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double fmin(double, double);
X int vb_fmin(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(fmin(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float fminf(float, float);
X int vb_fminf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(fminf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double fmod(double, double);
X int vb_fmod(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(fmod(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float fmodf(float, float);
X int vb_fmodf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(fmodf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double hypot(double, double);
X int vb_hypot(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(hypot(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float hypotf(float, float);
X int vb_hypotf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(hypotf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" int ilogb(double);
X int vb_ilogb(size_t n, size_t *p, const u64 *x, i32 *o) { LOOP o[i] = ilogb(fb<double>(x[i])); END
extern "C" int ilogbf(float);
X int vb_ilogbf(size_t n, size_t *p, const u32 *x, i32 *o) { LOOP o[i] = ilogbf(fb<float>(x[i])); END
extern "C" double j0(double);
X int vb_j0(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(j0(fb<double>(x[i]))); END
extern "C" float j0f(float);
X int vb_j0f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(j0f(fb<float>(x[i]))); END
extern "C" double j1(double);
X int vb_j1(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(j1(fb<double>(x[i]))); END
extern "C" float j1f(float);
X int vb_j1f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(j1f(fb<float>(x[i]))); END
extern "C" double jn(int, double);
X int vb_jn(size_t n, size_t *p, const u64 *x, const i32 *y, u64 *o) { LOOP o[i] = tb<u64>(jn(y[i], fb<double>(x[i]))); END
extern "C" float jnf(int, float);
X int vb_jnf(size_t n, size_t *p, const u32 *x, const i32 *y, u32 *o) { LOOP o[i] = tb<u32>(jnf(y[i], fb<float>(x[i]))); END
extern "C" double ldexp(double, int);
X int vb_ldexp(size_t n, size_t *p, const u64 *x, const i32 *y, u64 *o) { LOOP o[i] = tb<u64>(ldexp(fb<double>(x[i]), y[i])); END
extern "C" float ldexpf(float, int);
X int vb_ldexpf(size_t n, size_t *p, const u32 *x, const i32 *y, u32 *o) { LOOP o[i] = tb<u32>(ldexpf(fb<float>(x[i]), y[i])); END
extern "C" double lgamma(double);
X int vb_lgamma(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(lgamma(fb<double>(x[i]))); END
extern "C" double lgamma_r(double, int *);
X int vb_lgamma_r(size_t n, size_t *p, const u64 *x, u64 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u64>(lgamma_r(fb<double>(x[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" float lgammaf(float);
X int vb_lgammaf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(lgammaf(fb<float>(x[i]))); END
extern "C" float lgammaf_r(float, int *);
X int vb_lgammaf_r(size_t n, size_t *p, const u32 *x, u32 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u32>(lgammaf_r(fb<float>(x[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" double log(double);
X int vb_log(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(log(fb<double>(x[i]))); END
extern "C" double log10(double);
X int vb_log10(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(log10(fb<double>(x[i]))); END
extern "C" float log10f(float);
X int vb_log10f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(log10f(fb<float>(x[i]))); END
extern "C" double log1p(double);
X int vb_log1p(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(log1p(fb<double>(x[i]))); END
extern "C" float log1pf(float);
X int vb_log1pf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(log1pf(fb<float>(x[i]))); END
extern "C" double log2(double);
X int vb_log2(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(log2(fb<double>(x[i]))); END
extern "C" float log2f(float);
X int vb_log2f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(log2f(fb<float>(x[i]))); END
extern "C" float logf(float);
X int vb_logf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(logf(fb<float>(x[i]))); END
extern "C" double modf(double, double *);
X int vb_modf(size_t n, size_t *p, const u64 *x, u64 *o, u64 *o2) { LOOP Out<double> v; o[i] = tb<u64>(modf(fb<double>(x[i]), &v.v)); o2[i] = tb<u64>(v.v); if (!v.ok()) return 1; END
extern "C" float modff(float, float *);
X int vb_modff(size_t n, size_t *p, const u32 *x, u32 *o, u32 *o2) { LOOP Out<float> v; o[i] = tb<u32>(modff(fb<float>(x[i]), &v.v)); o2[i] = tb<u32>(v.v); if (!v.ok()) return 1; END
extern "C" double nextafter(double, double);
X int vb_nextafter(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(nextafter(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float nextafterf(float, float);
X int vb_nextafterf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(nextafterf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double pow(double, double);
X int vb_pow(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(pow(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float powf(float, float);
X int vb_powf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(powf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double remainder(double, double);
X int vb_remainder(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o) { LOOP o[i] = tb<u64>(remainder(fb<double>(x[i]), fb<double>(y[i]))); END
extern "C" float remainderf(float, float);
X int vb_remainderf(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o) { LOOP o[i] = tb<u32>(remainderf(fb<float>(x[i]), fb<float>(y[i]))); END
extern "C" double remquo(double, double, int *);
X int vb_remquo(size_t n, size_t *p, const u64 *x, const u64 *y, u64 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u64>(remquo(fb<double>(x[i]), fb<double>(y[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" float remquof(float, float, int *);
X int vb_remquof(size_t n, size_t *p, const u32 *x, const u32 *y, u32 *o, i32 *o2) { LOOP Out<int> v; o[i] = tb<u32>(remquof(fb<float>(x[i]), fb<float>(y[i]), &v.v)); o2[i] = tb<i32>(v.v); if (!v.ok()) return 1; END
extern "C" double rint(double);
X int vb_rint(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(rint(fb<double>(x[i]))); END
extern "C" float rintf(float);
X int vb_rintf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(rintf(fb<float>(x[i]))); END
extern "C" __float128 rintf128(__float128);
X int vb_rintf128(size_t n, size_t *p, const u128 *x, u128 *o) { LOOP o[i] = tb<u128>(rintf128(fb<__float128>(x[i]))); END
extern "C" _Float16 rintf16(_Float16);
X int vb_rintf16(size_t n, size_t *p, const u16 *x, u16 *o) { LOOP o[i] = tb<u16>(rintf16(fb<_Float16>(x[i]))); END
extern "C" double round(double);
X int vb_round(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(round(fb<double>(x[i]))); END
extern "C" float roundf(float);
X int vb_roundf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(roundf(fb<float>(x[i]))); END
extern "C" double scalbn(double, int);
X int vb_scalbn(size_t n, size_t *p, const u64 *x, const i32 *y, u64 *o) { LOOP o[i] = tb<u64>(scalbn(fb<double>(x[i]), y[i])); END
extern "C" float scalbnf(float, int);
X int vb_scalbnf(size_t n, size_t *p, const u32 *x, const i32 *y, u32 *o) { LOOP o[i] = tb<u32>(scalbnf(fb<float>(x[i]), y[i])); END
extern "C" double sin(double);
X int vb_sin(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(sin(fb<double>(x[i]))); END
extern "C" float sinf(float);
X int vb_sinf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(sinf(fb<float>(x[i]))); END
extern "C" double sinh(double);
X int vb_sinh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(sinh(fb<double>(x[i]))); END
extern "C" float sinhf(float);
X int vb_sinhf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(sinhf(fb<float>(x[i]))); END
extern "C" double sqrt(double);
X int vb_sqrt(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(sqrt(fb<double>(x[i]))); END
extern "C" float sqrtf(float);
X int vb_sqrtf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(sqrtf(fb<float>(x[i]))); END
extern "C" double tan(double);
X int vb_tan(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(tan(fb<double>(x[i]))); END
extern "C" float tanf(float);
X int vb_tanf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(tanf(fb<float>(x[i]))); END
extern "C" double tanh(double);
X int vb_tanh(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(tanh(fb<double>(x[i]))); END
extern "C" float tanhf(float);
X int vb_tanhf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(tanhf(fb<float>(x[i]))); END
extern "C" double tgamma(double);
X int vb_tgamma(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(tgamma(fb<double>(x[i]))); END
extern "C" float tgammaf(float);
X int vb_tgammaf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(tgammaf(fb<float>(x[i]))); END
extern "C" double trunc(double);
X int vb_trunc(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(trunc(fb<double>(x[i]))); END
extern "C" float truncf(float);
X int vb_truncf(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(truncf(fb<float>(x[i]))); END
extern "C" __float128 truncf128(__float128);
X int vb_truncf128(size_t n, size_t *p, const u128 *x, u128 *o) { LOOP o[i] = tb<u128>(truncf128(fb<__float128>(x[i]))); END
extern "C" _Float16 truncf16(_Float16);
X int vb_truncf16(size_t n, size_t *p, const u16 *x, u16 *o) { LOOP o[i] = tb<u16>(truncf16(fb<_Float16>(x[i]))); END
extern "C" double y0(double);
X int vb_y0(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(y0(fb<double>(x[i]))); END
extern "C" float y0f(float);
X int vb_y0f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(y0f(fb<float>(x[i]))); END
extern "C" double y1(double);
X int vb_y1(size_t n, size_t *p, const u64 *x, u64 *o) { LOOP o[i] = tb<u64>(y1(fb<double>(x[i]))); END
extern "C" float y1f(float);
X int vb_y1f(size_t n, size_t *p, const u32 *x, u32 *o) { LOOP o[i] = tb<u32>(y1f(fb<float>(x[i]))); END
extern "C" double yn(int, double);
X int vb_yn(size_t n, size_t *p, const u64 *x, const i32 *y, u64 *o) { LOOP o[i] = tb<u64>(yn(y[i], fb<double>(x[i]))); END
extern "C" float ynf(int, float);
X int vb_ynf(size_t n, size_t *p, const u32 *x, const i32 *y, u32 *o) { LOOP o[i] = tb<u32>(ynf(y[i], fb<float>(x[i]))); END
extern "C" void sincos(double, double *, double *);
X int vb_sincos(size_t n, size_t *p, const u64 *x, u64 *o, u64 *o2) { LOOP Out<double> s, c; sincos(fb<double>(x[i]), &s.v, &c.v); o[i] = tb<u64>(s.v); o2[i] = tb<u64>(c.v); if (!s.ok() || !c.ok()) return 1; END
extern "C" void sincosf(float, float *, float *);
X int vb_sincosf(size_t n, size_t *p, const u32 *x, u32 *o, u32 *o2) { LOOP Out<float> s, c; sincosf(fb<float>(x[i]), &s.v, &c.v); o[i] = tb<u32>(s.v); o2[i] = tb<u32>(c.v); if (!s.ok() || !c.ok()) return 1; END
