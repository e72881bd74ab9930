#pragma once
#include "core.h"
void *vec1_find(const char *n); void *vec2_find(const char *n);
bool vec1_check(void *fn, const float *x, const float *y, size_t n, int allowed, uint64_t *worst);
bool vec2_check(void *fn, const float *a, const float *b, const float *y, size_t n, int allowed, uint64_t *worst);
extern "C" {
#define DQ(n) f128 n##f128(f128);
DQ(acos) DQ(acosh) DQ(asin) DQ(asinh) DQ(atan) DQ(atanh) DQ(cbrt) DQ(cos) DQ(cosh) DQ(erf) DQ(erfc) DQ(exp) DQ(exp10) DQ(exp2) DQ(expm1)
DQ(log) DQ(log10) DQ(log1p) DQ(log2) DQ(sin) DQ(sinh) DQ(tan) DQ(tanh) DQ(lgamma) DQ(tgamma) DQ(j0) DQ(j1) DQ(y0) DQ(y1) DQ(sqrt) DQ(fabs) DQ(floor) DQ(rint)
f128 atan2f128(f128, f128); f128 hypotf128(f128, f128); f128 powf128(f128, f128); f128 fmaf128(f128, f128, f128); f128 fmodf128(f128, f128); f128 remainderf128(f128, f128);
f128 jnf128(int, f128); f128 ynf128(int, f128); f128 scalbnf128(f128, int);
long double exp10l(long double);
}
struct Fn1 {
    const char *base; int a32, a64; double (*d)(double); ld (*l)(ld); f128 (*q)(f128);
    int e32lo, e32hi, e64lo, e64hi;   // biased exponent range where the function is not a trivial tail
};
const Fn1 *fn1(const std::string &base);
struct Fn2 { const char *base; int a32, a64; double (*d)(double, double); ld (*l)(ld, ld); f128 (*q)(f128, f128); };
const Fn2 *fn2(const std::string &base);

// round a binary128 reference to B
template <class B> B round_q(f128 q);
template <> inline u32 round_q<u32>(f128 q) { return bc<u32>((float)q); }
template <> inline u64 round_q<u64>(f128 q) { return bc<u64>((double)q); }
template <class B> f128 to_q(B x);
template <> inline f128 to_q<u32>(u32 x) { return (f128)bc<float>(x); }
template <> inline f128 to_q<u64>(u64 x) { return (f128)bc<double>(x); }
// distance in representable steps from the correctly rounded value of q; both candidates are tried
// when q is within 2^-100 relative of a rounding boundary. -1: NaN mismatch.
template <class B> i128 steps(B y, f128 q) {
    bool yn = F<B>::nan(y), qn = q != q;
    if (yn || qn) return yn && qn ? 0 : -1;
    f128 e = q * (f128)0x1p-100L; i128 best = -1;
    for (f128 c : {q, q + e, q - e}) { if (c != c) c = q; i128 d = F<B>::ord(y) - F<B>::ord(round_q<B>(c)); if (d < 0) d = -d; if (best < 0 || d < best) best = d; }
    return best;
}
void check_unary32(const std::string &op, const Fn1 &f, const Dom<u32> &d, const char *cfg = "arch", int allowed = -1);
void check_unary64(const std::string &op, const Fn1 &f, const Dom<u64> &d, const char *cfg = "arch", int allowed = -1);
// function values already computed (for sincos)
void judge32(const std::string &op, const Fn1 &f, const u32 *x, const u32 *y, size_t n, const char *cfg, int allowed);
void judge64(const std::string &op, const Fn1 &f, const u64 *x, const u64 *y, size_t n, const char *cfg, int allowed);
void check_pairs32(const std::string &op, const Fn2 &f, const std::vector<u32> &A, const std::vector<u32> &Bv, const char *cfg = "arch", int allowed = -1);
void check_pairs64(const std::string &op, const Fn2 &f, const std::vector<u64> &A, const std::vector<u64> &Bv, const char *cfg = "arch", int allowed = -1);
void judge2_64(const std::string &op, const Fn2 &f, const u64 *x, const u64 *z, const u64 *y, size_t n, const char *cfg, int allowed);
void judge2_32(const std::string &op, const Fn2 &f, const u32 *x, const u32 *z, const u32 *y, size_t n, const char *cfg, int allowed);
template <class B> std::vector<B> special_vals();   // zeros, subnormal edges, powers of two, infinities, NaNs...
std::vector<u64> unary_alpha64(int r); // literals, specials, integers with r neighbours
std::vector<u32> unary_alpha32(int r);
std::vector<u64> file_hex64(const char *path);
