// Compiled with -mavx512f: wide double-precision reference evaluation through glibc's libmvec
// (<= 4 ulp in double, i.e. 2^-27 ulp of binary32), used only as the first filter; every apparent
// violation is re-decided in binary128.
#include <immintrin.h>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
extern "C" {
#define D(n) __m512d _ZGVeN8v_##n(__m512d);
D(acos) D(acosh) D(asin) D(asinh) D(atan) D(atanh) D(cbrt) D(cos) D(cosh) D(erf) D(erfc) D(exp) D(exp10) D(exp2) D(expm1) D(log) D(log10) D(log1p) D(log2) D(sin) D(sinh) D(tan) D(tanh)
__m512d _ZGVeN8vv_atan2(__m512d, __m512d); __m512d _ZGVeN8vv_hypot(__m512d, __m512d); __m512d _ZGVeN8vv_pow(__m512d, __m512d);
}
typedef __m512d (*V1)(__m512d);
typedef __m512d (*V2)(__m512d, __m512d);
static std::map<std::string, V1> &tab() {
    static std::map<std::string, V1> m = {
#define E(n) {#n, _ZGVeN8v_##n},
        E(acos) E(acosh) E(asin) E(asinh) E(atan) E(atanh) E(cbrt) E(cos) E(cosh) E(erf) E(erfc) E(exp) E(exp10) E(exp2) E(expm1) E(log) E(log10) E(log1p) E(log2) E(sin) E(sinh) E(tan) E(tanh)};
    return m;
}
void *vec1_find(const char *n) { auto i = tab().find(n); return i == tab().end() ? nullptr : (void *)i->second; }
void *vec2_find(const char *n) {
    std::string s = n; if (s == "atan2") return (void *)_ZGVeN8vv_atan2; if (s == "hypot") return (void *)_ZGVeN8vv_hypot; if (s == "pow") return (void *)_ZGVeN8vv_pow; return nullptr;
}
static inline __m256i ordv(__m256i b) {   // sign-magnitude -> two's complement order
    __m256i a = _mm256_and_si256(b, _mm256_set1_epi32(0x7fffffff)); __m256i s = _mm256_srai_epi32(b, 31);
    return _mm256_sub_epi32(_mm256_xor_si256(a, s), s);
}
// returns true when every |y - round(ref(x))| <= allowed; *worst updated with the maximal distance among acceptable lanes
static inline bool cmp8(__m256 y, __m512d r, __m256i lim, __m256i &mx) {
    __m256 rf = _mm512_cvtpd_ps(r);
    __m256i d = _mm256_abs_epi32(_mm256_sub_epi32(ordv(_mm256_castps_si256(y)), ordv(_mm256_castps_si256(rf))));
    __m256i bothnan = _mm256_castps_si256(_mm256_and_ps(_mm256_cmp_ps(y, y, _CMP_UNORD_Q), _mm256_cmp_ps(rf, rf, _CMP_UNORD_Q)));
    __m256i onenan = _mm256_castps_si256(_mm256_xor_ps(_mm256_cmp_ps(y, y, _CMP_UNORD_Q), _mm256_cmp_ps(rf, rf, _CMP_UNORD_Q)));
    d = _mm256_andnot_si256(bothnan, d);
    // difference may wrap for opposite huge values: treat a negative abs as large
    __m256i bad = _mm256_or_si256(_mm256_or_si256(_mm256_cmpgt_epi32(d, lim), _mm256_cmpgt_epi32(_mm256_setzero_si256(), d)), onenan);
    // a zero or an infinity against anything but the identical pattern is left to the scalar judge
    __m256i yb = _mm256_castps_si256(y), rb = _mm256_castps_si256(rf), am = _mm256_set1_epi32(0x7fffffff), inf = _mm256_set1_epi32(0x7f800000), z0 = _mm256_setzero_si256();
    __m256i ya = _mm256_and_si256(yb, am), ra = _mm256_and_si256(rb, am);
    __m256i sp = _mm256_or_si256(_mm256_or_si256(_mm256_cmpeq_epi32(ya, z0), _mm256_cmpeq_epi32(ya, inf)), _mm256_or_si256(_mm256_cmpeq_epi32(ra, z0), _mm256_cmpeq_epi32(ra, inf)));
    bad = _mm256_or_si256(bad, _mm256_andnot_si256(_mm256_cmpeq_epi32(yb, rb), sp));
    if (!_mm256_testz_si256(bad, bad)) return false;
    mx = _mm256_max_epi32(mx, d); return true;
}
static uint64_t hmax(__m256i v) { int32_t t[8]; memcpy(t, &v, 32); int32_t m = 0; for (int i : t) if (i > m) m = i; return m; }
// n multiple of 8
bool vec1_check(void *fn, const float *x, const float *y, size_t n, int allowed, uint64_t *worst) {
    V1 f = (V1)fn; __m256i lim = _mm256_set1_epi32(allowed), mx = _mm256_setzero_si256(); bool ok = true;
    for (size_t i = 0; i < n; i += 8) ok &= cmp8(_mm256_loadu_ps(y + i), f(_mm512_cvtps_pd(_mm256_loadu_ps(x + i))), lim, mx);
    *worst = hmax(mx); return ok;
}
bool vec2_check(void *fn, const float *a, const float *b, const float *y, size_t n, int allowed, uint64_t *worst) {
    V2 f = (V2)fn; __m256i lim = _mm256_set1_epi32(allowed), mx = _mm256_setzero_si256(); bool ok = true;
    for (size_t i = 0; i < n; i += 8) ok &= cmp8(_mm256_loadu_ps(y + i), f(_mm512_cvtps_pd(_mm256_loadu_ps(a + i)), _mm512_cvtps_pd(_mm256_loadu_ps(b + i))), lim, mx);
    *worst = hmax(mx); return ok;
}
