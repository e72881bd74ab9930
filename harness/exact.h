// Reference models on exact integers: every finite float is M * 2^E, no floating-point arithmetic is used.
#pragma once
#include "core.h"
typedef unsigned _BitInt(512) W;
template <class B> struct Dec { bool neg, nan, inf; B m; int e; };
template <class B> static inline Dec<B> dec(B x) {
    typedef F<B> T; Dec<B> d; d.neg = T::neg(x); d.nan = T::nan(x); d.inf = T::inf(x);
    int e = T::ex(x); d.m = (B)(x & T::SIGM); if (e) d.m = (B)(d.m | ((B)1 << T::SIG)); else e = 1;
    d.e = e - T::BIAS - T::SIG; return d;
}
static inline int bitlen(u128 v) { u64 h = (u64)(v >> 64); return h ? 128 - __builtin_clzll(h) : (u64)v ? 64 - __builtin_clzll((u64)v) : 0; }
static inline int bitlenW(W v) { int n = 0; if (v >> 256) { n += 256; v >>= 256; } if (v >> 128) { n += 128; v >>= 128; } return n + bitlen((u128)v); }
// round-to-nearest-even encoding of (-1)^neg * M * 2^e, plus sticky (a nonzero remainder below M's last bit)
template <class B> B enc(bool neg, W M, i64 e, bool sticky = false, bool *inexact = nullptr) {
    typedef F<B> T; B s = neg ? T::SIGN : (B)0; if (inexact) *inexact = sticky;
    if (M == 0) return s;   // callers never pass a sticky zero
    int L = bitlenW(M); i64 top = e + L - 1;                // exponent of the leading bit
    i64 lsb = top - T::SIG; i64 minl = T::EMIN - T::SIG; if (lsb < minl) lsb = minl;
    i64 sh = lsb - e; W q;
    if (sh <= 0) { if (sh < -(T::SIG + 1)) sh = -(T::SIG + 1); q = M << (int)(-sh); if (sticky) { /* only when callers keep guard bits */ } }
    else {
        W rem; W half;
        if (sh > L + 1) { q = 0; rem = 1; half = 2; }
        else { q = M >> (int)sh; rem = M & ((((W)1) << (int)sh) - 1); half = (W)1 << (int)(sh - 1); }
        if (inexact && rem != 0) *inexact = true;
        if (rem > half || (rem == half && (sticky || (q & 1)))) q += 1;
    }
    B r = (B)(u128)q; 
    // q < 2^(SIG+1)+1 ; biased exponent field of lsb: (lsb - minl) + (normal ? 1 : 0), carried by addition
    i64 be = lsb - minl;    // 0 for subnormal/min normal binade
    if (be >= T::EMASK) return (B)(s | T::INF);
    W full = ((W)(u64)be << T::SIG) + (W)r;   // hidden bit adds 1 to the exponent field
    if (full >= (W)T::INF) return (B)(s | T::INF);
    return (B)(s | (B)(u128)full);
}
enum RMode { R_CEIL, R_FLOOR, R_TRUNC, R_ROUND, R_EVEN };
template <class B> static inline B m_round(B x, RMode md) {
    typedef F<B> T; if (!T::fin(x)) return x;
    B s = (B)(x & T::SIGN); bool neg = s != 0; int e = T::ex(x) - T::BIAS;
    if (e >= T::SIG) return x;
    B m = (B)(x & T::SIGM), n; bool half, rest, frac;   // integer part n, fraction >= 1/2, anything below the half bit
    if (e < 0) { if ((B)(x & T::ABS) == 0) return x; n = 0; half = e == -1; rest = half ? m != 0 : true; frac = true; }
    else {
        m = (B)(m | ((B)1 << T::SIG)); int s2 = T::SIG - e; n = (B)(m >> s2); B fr = (B)(m & (B)(((B)1 << s2) - 1)); frac = fr != 0;
        if (!frac) return x; half = (fr >> (s2 - 1)) & 1; rest = (B)(fr & (B)(((B)1 << (s2 - 1)) - 1)) != 0;
    }
    bool up = false;
    switch (md) { case R_CEIL: up = !neg; break; case R_FLOOR: up = neg; break; case R_TRUNC: break; case R_ROUND: up = half; break; case R_EVEN: up = half && (rest || (n & 1)); }
    if (up) n = (B)(n + 1);
    if (n == 0) return s;
    int L = bitlen(n); return (B)(s | (B)(((B)(L - 1 + T::BIAS) << T::SIG) + (B)((B)(n << (T::SIG + 1 - L)) & T::SIGM)));
}
template <int N> static inline unsigned _BitInt(N) mulmod(unsigned _BitInt(N) a, unsigned _BitInt(N) b, unsigned _BitInt(N) m) { return a * b % m; }
// (mx * 2^d) mod mod, mod < 2^(N/2)
template <int N> static unsigned _BitInt(N) shlmod(unsigned _BitInt(N) mx, unsigned d, unsigned _BitInt(N) m) {
    typedef unsigned _BitInt(N) I; I r = mx % m, b = 2 % m; while (d) { if (d & 1) r = r * b % m; b = b * b % m; d >>= 1; } return r;
}
// exact fmod for finite x, y != 0
template <class B> B m_fmod(B x, B y) {
    typedef F<B> T; Dec<B> a = dec(x), b = dec(y);
    if (a.nan || b.nan || a.inf || b.m == 0) return T::QNAN; if (b.inf) return x;
    if (a.e >= b.e) { 
        if constexpr (sizeof(B) <= 4) { u128 r = (u128)a.m % b.m; unsigned d = a.e - b.e; while (d) { unsigned c = d > 64 ? 64 : d; r = (r << c) % b.m; d -= c; } return enc<B>(a.neg, (W)r, b.e); }
        else if constexpr (sizeof(B) == 8) { unsigned _BitInt(128) r = shlmod<128>((unsigned _BitInt(128))a.m, a.e - b.e, (unsigned _BitInt(128))b.m); return enc<B>(a.neg, (W)r, b.e); }
        else { unsigned _BitInt(256) r = shlmod<256>((unsigned _BitInt(256))a.m, a.e - b.e, (unsigned _BitInt(256))b.m); return enc<B>(a.neg, (W)r, b.e); }
    }
    int d = b.e - a.e; if (d > T::SIG + 2) return x;
    W Y = (W)b.m << d; return enc<B>(a.neg, (W)a.m % Y, a.e);
}
// IEEE remainder and the low 31 bits of the quotient magnitude
template <class B> B m_remquo(B x, B y, u32 *q31, bool *qneg) {
    typedef F<B> T; Dec<B> a = dec(x), b = dec(y); *q31 = 0; *qneg = a.neg != b.neg;
    if (a.nan || b.nan || a.inf || b.m == 0) return T::QNAN; if (b.inf) return x; if (a.m == 0) return x;
    W r, Y; u32 q; i64 e;
    if (a.e >= b.e) { unsigned _BitInt(256) M = (unsigned _BitInt(256))b.m << 32; unsigned _BitInt(256) v = shlmod<256>((unsigned _BitInt(256))a.m, a.e - b.e, M); q = (u32)(v / b.m); r = (W)(v % b.m); Y = b.m; e = b.e; }
    else { int d = b.e - a.e; if (d > T::SIG + 3) return x; Y = (W)b.m << d; q = (u32)((W)a.m / Y); r = (W)a.m % Y; e = a.e; }
    bool neg = a.neg; if (2 * r > Y || (2 * r == Y && (q & 1))) { r = Y - r; neg = !neg; q++; }
    *q31 = q & 0x7fffffff; if (r == 0) return a.neg ? T::SIGN : (B)0; return enc<B>(neg, r, e);
}
// exact x*y+z rounded once (finite operands); specials per IEEE 754
template <class B> B m_fma(B x, B y, B z) {
    typedef F<B> T; Dec<B> a = dec(x), b = dec(y), c = dec(z); bool pn = a.neg != b.neg;
    if (a.nan || b.nan || c.nan) return T::QNAN;
    if (a.inf || b.inf) { if (a.m == 0 || b.m == 0) return T::QNAN; if (c.inf && c.neg != pn) return T::QNAN; return (B)(T::INF | (pn ? T::SIGN : (B)0)); }
    if (c.inf) return z;
    W p = (W)a.m * (W)b.m; i64 pe = (i64)a.e + b.e; W cm = c.m; i64 ce = c.e;
    if (p == 0 && cm == 0) return (pn && c.neg) ? T::SIGN : (B)0;
    if (p == 0) return z;
    if (cm == 0) return enc<B>(pn, p, pe);
    // align: keep the operand with the higher leading bit exact; the other contributes exactly or as sticky
    int lp = bitlenW(p), lc = bitlenW(cm); i64 tp = pe + lp, tc = ce + lc; const int G2 = 500;
    bool bigp = tp >= tc; W hi = bigp ? p : cm, lo = bigp ? cm : p; i64 he = bigp ? pe : ce, le = bigp ? ce : pe; bool hn = bigp ? pn : c.neg, ln = bigp ? c.neg : pn; int lh = bigp ? lp : lc;
    int up = G2 - lh; i64 base = he - up; W H = hi << up; W L; bool st = false;
    if (le >= base) L = lo << (int)(le - base); else { i64 s = base - le; if (s > 500) { L = 0; st = true; } else { L = lo >> (int)s; st = (lo & ((((W)1) << (int)s) - 1)) != 0; } }
    W r; bool rn;
    if (hn == ln) { r = H + L; rn = hn; }
    else if (H > L || (H == L && !st)) { r = H - L; if (st) r -= 1; rn = hn; }   // H - (L + eps) = (H - L - 1) + (1 - eps)
    else { r = L - H; rn = ln; }
    if (r == 0 && !st) return (B)0;     // exact cancellation of opposite signs
    // fold sticky into an extra low bit so enc sees it as inexact
    r = (r << 1) | (st ? 1 : 0); return enc<B>(rn, r, base - 1);
}
template <class B> B m_sub(B x, B y) { return m_fma<B>(F<B>::ONE, x, (B)(y ^ F<B>::SIGN)); }
// sqrt: is y the correctly rounded root of x? (x finite positive)
template <class B> bool m_sqrt_ok(B x, B y) {
    typedef F<B> T; if (T::nan(x) || (T::neg(x) && !T::zero(x))) return T::nan(y); if (T::zero(x) || T::inf(x)) return y == x;
    if (T::neg(y) || !T::fin(y) || T::zero(y)) return false;
    Dec<B> a = dec(x), r = dec(y);
    // (r - 1/2 ulp)^2 < x < (r + 1/2 ulp)^2 ; the root is never subnormal nor exactly half way
    W lo = 2 * (W)r.m - 1, hi = 2 * (W)r.m + 1; i64 e2 = 2 * ((i64)r.e - 1); W X = a.m; i64 d = a.e - e2;
    if (r.m == (B)((B)1 << T::SIG)) { lo = 4 * (W)r.m - 1; hi = 4 * (W)r.m + 2; d += 2; }  // lower neighbour is twice as close
    W lo2 = lo * lo, hi2 = hi * hi; if (d >= 0) { if (d > 250) return false; X <<= (int)d; } else { if (-d > 250) return false; lo2 <<= (int)-d; hi2 <<= (int)-d; }
    return lo2 < X && X < hi2;
}
// cbrt: is y the correctly rounded cube root of x? (the root is never subnormal; an exact tie is impossible)
template <class B> bool m_cbrt_ok(B x, B y) {
    typedef F<B> T; if (T::nan(x)) return T::nan(y); if (T::zero(x) || T::inf(x)) return y == x;
    if (T::neg(y) != T::neg(x) || !T::fin(y) || T::zero(y)) return false;
    typedef unsigned _BitInt(sizeof(B) == 4 ? 128 : 192) I; const int lim = sizeof(B) == 4 ? 90 : 180;
    Dec<B> a = dec(x), r = dec(y); int sh = 53 - bitlen((u128)r.m) - (sizeof(B) == 4 ? 29 : 0); if (sh < 0) return false;
    I m = (I)r.m << sh; i64 e = (i64)r.e - sh;   // normalised: exactly SIG + 1 bits
    I lo = 2 * m - 1, hi = 2 * m + 1; i64 u = e - 1;
    if (m == ((I)1 << T::SIG)) { lo = 4 * m - 1; hi = 4 * m + 2; u = e - 2; }
    I X = a.m; i64 d = (i64)a.e - 3 * u; int L = bitlen((u128)a.m);
    I lo3 = lo * lo * lo, hi3 = hi * hi * hi;
    if (d >= 0) { if (L + d > lim) return false; X <<= (int)d; } else { if (d < -100) return false; I t = X >> (int)-d; bool st = (t << (int)-d) != X; return (lo3 < t || (lo3 == t && st)) && t < hi3; }
    return lo3 < X && X < hi3;
}
template <class B> B m_scalbn(B x, i64 n) { typedef F<B> T; if (!T::fin(x) || T::zero(x)) return x; Dec<B> d = dec(x); if (n > 200000) n = 200000; if (n < -200000) n = -200000; return enc<B>(d.neg, (W)d.m, d.e + n); }
