// C21 special values, C22 exact identities, C23 totality, C24 purity, C25 configurations agree.
#include "checks.h"
#include "exact.h"
#include "oracle.h"
#include <csetjmp>
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <xmmintrin.h>
static bool T() { return G.thorough; }
static void tick(const std::string &op, double t) { if (getenv("VERIF_TIME")) { printf("  time %s %.1fs\n", op.c_str(), elapsed() - t); fflush(stdout); } }
static std::string base_of(const std::string &op) {
    static const std::map<std::string, std::string> X = {{"erf", "erf"}, {"erff", "erf"}, {"modf", "modf"}, {"modff", "modf"}, {"lgammaf_r", "lgamma_r"}, {"fmaximum_numf", "fmaximum_num"}};
    auto i = X.find(op); if (i != X.end()) return i->second;
    std::string s = op; for (const char *t : {"f16", "f128", "f"}) { size_t n = strlen(t); if (s.size() > n && s.compare(s.size() - n, n, t) == 0) return s.substr(0, s.size() - n); } return s;
}
// ---------------------------------------------------------------- generic input spaces per operation
template <class B> static std::vector<B> litv();
template <> std::vector<u16> litv() { return {}; }
template <> std::vector<u32> litv() { return lit32(); }
template <> std::vector<u64> litv() { return lit64(); }
template <> std::vector<u128> litv() { std::vector<u128> v; for (u64 x : lit64()) { double d = bc<double>(x); if (d == d) v.push_back(bc<u128>((f128)d)); } uniq(v); return v; }
template <class B> static std::vector<B> thin_(const std::vector<B> &v, size_t want) { if (v.size() <= want) return v; std::vector<B> r; for (size_t i = 0; i < want; i++) r.push_back(v[(size_t)((u128)i * v.size() / want)]); return r; }
template <class B> static std::vector<B> ints_(int n) { std::vector<B> v; for (int i = 0; i <= n; i++) for (int h = 0; h < 2; h++) { B x = enc<B>(false, (W)(u64)(2 * i + h), -1); for (int k = -1; k <= 1; k++) { if (x == 0 && k < 0) continue; v.push_back((B)(x + k)); v.push_back((B)((B)(x + k) | F<B>::SIGN)); } } return v; }
template <class B> static std::vector<B> alpha(int es, int nlit, int nint) {
    typedef F<B> Y; std::vector<B> v = special_vals<B>();
    for (int e = 0; e <= Y::EMASK; e += es) for (B s : {(B)0, Y::SIGN}) for (B m : {(B)0, Y::SIGM, (B)(Y::SIGM / 3)}) v.push_back((B)(s | ((B)e << Y::SIG) | m));
    auto a = thin_(litv<B>(), nlit); v.insert(v.end(), a.begin(), a.end()); for (B x : a) v.push_back((B)(x ^ Y::SIGN));
    auto i = ints_<B>(nint); v.insert(v.end(), i.begin(), i.end());
    // large integers, odd and even, up to where all values are even
    if (nint >= 8) for (int k = 2; k <= std::min(Y::SIG + 2, Y::BIAS - 1); k += sizeof(B) == 16 ? 7 : 1) for (int d : {-1, 1, 2}) { B x = enc<B>(false, ((W)1 << k) + (W)(i64)d, 0); v.push_back(x); v.push_back((B)(x | Y::SIGN)); }
    uniq(v); return v;
}
static std::vector<i32> nalpha(bool order) {   // integer arguments: scalbn exponents, or Bessel orders (bounded: the recurrences take |n| steps)
    std::vector<i32> v; auto add = [&](i64 x) { if (x >= INT32_MIN && x <= INT32_MAX && (!order || (x <= (T() ? 100000 : 3000) && x >= -(T() ? 100000 : 3000)))) v.push_back((i32)x); };
    for (int i = -40; i <= 40; i++) add(i); for (int k = 0; k <= 31; k++) for (int d = -1; d <= 1; d++) { add((1ll << k) + d); add(-(1ll << k) + d); }
    if (!order) for (i64 c : {127, 149, 150, 1022, 1074, 1075, 2046, 2098, 16382, 16494, 32766, 32876, 24, 14, 15, 25, 40, 253, 277, 3000, 100000, 2000000}) for (int d = -2; d <= 2; d++) { add(c + d); add(-c + d); }
    for (i32 x : new_ints()) add(x);
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
// lvl 0 small, 1 quick, 2 large
template <class B> static u64 gen_b(const Op &op, int lvl, const Sink &sink, std::string &desc) {
    typedef F<B> Y; std::atomic<u64> tot{0};
    if (lvl) { std::string f = base_of(op.name); u64 h = hard_exact<B>(f, lvl, sink); if (sizeof(B) == 8) h += hard_acc64(f, lvl, sink); if (h) { tot += h; note(fmt("%s: %llu inputs built for it (ties, near-multiples, hard products)", op.name, (unsigned long long)h)); } }
    bool unary = op.c == CU || op.c == CUTT || op.c == CUTI || op.c == CUI;
    auto dom = [&](const Dom<B> &d) { tot += d.n; parallel((d.n + CH - 1) / CH, [&](u64 c) { static thread_local std::vector<B> b; b.resize(CH); u64 s = c * CH; size_t n = std::min<u64>(CH, d.n - s); d.fill(s, n, b.data()); sink(n, b.data(), nullptr, nullptr); }); };
    if (unary) {
        static const int K[3][4] = {{10, 8, 3, 3}, {10, 14, 10, 6}, {10, 20, 13, 9}};
        int w = sizeof(B) == 2 ? 0 : sizeof(B) == 4 ? 1 : sizeof(B) == 8 ? 2 : 3;
        if constexpr (sizeof(B) == 2) { dom(dom_all<B>()); desc = "every bit pattern"; }
        else { auto d = dom_lattice<B>(0, Y::EMASK, K[lvl][w], low_patterns<B>(lvl + 2)); dom(d); desc = d.desc;
            if (sizeof(B) >= 8 && lvl) { int k = K[lvl][w] + 4; dom(dom_lattice<B>(Y::BIAS - 30, Y::BIAS + 34, k, low_patterns<B>(3))); desc += " + the binades 2^-30..2^34 with 2^" + std::to_string(k) + " significands"; }
            if (!newlits().empty()) { std::vector<B> w; for (B x : special_vals<B>()) add_neigh(w, x, sizeof(B) == 16 ? 64 : 1024); dom(dom_vec(w, "")); if constexpr (sizeof(B) == 8) dom(delta_dom64()); }
            dom(dom_vec(alpha<B>(1, 1 << 20, lvl ? 200 : 20), "")); desc += " + source constants, integers, half-integers, format edges"; }
        return tot;
    }
    bool ti = op.c == CTI || op.c == CIT;
    int es = sizeof(B) == 2 ? 1 : sizeof(B) == 4 ? (lvl == 2 ? 1 : lvl ? 3 : 24) : sizeof(B) == 8 ? (lvl == 2 ? 4 : lvl ? 17 : 200) : (lvl == 2 ? 61 : lvl ? 400 : 4000);
    int nl = lvl == 2 ? 600 : lvl ? 150 : 16, ni = lvl == 2 ? 24 : lvl ? 8 : 3;
    std::vector<B> A = alpha<B>(es, nl, ni);
    if (op.c == CTTI || op.c == CB || ti) {
        std::vector<i32> N = nalpha(op.c == CIT); size_t m = ti ? N.size() : A.size();
        if (op.c == CIT) { A = thin_(A, lvl == 2 ? 1500 : lvl ? 220 : 40); if (!newlits().empty()) { auto w = special_vals<B>(); A.insert(A.end(), w.begin(), w.end()); uniq(A); } }
        tot += (u64)A.size() * m; desc = fmt("%zu values x %zu %s", A.size(), m, ti ? "integers" : "values");
        parallel(A.size(), [&](u64 i) { static thread_local std::vector<B> x; x.assign(m, A[i]); sink(m, x.data(), ti ? (const void *)N.data() : A.data(), nullptr); });
        if (op.c == CIT) {   // extreme orders, where the routine does not take |n| steps: zeros, infinities, NaN, tiny arguments, and huge ones in the wide formats
            std::vector<B> Q; for (B x : alpha<B>(1, 200, 4)) { B a = x & Y::ABS; int e = (int)(a >> Y::SIG) - Y::BIAS; if (e < -30 || a >= Y::INF || (sizeof(B) >= 8 && e >= 303)) Q.push_back(x); }
            std::vector<i32> M; for (i64 n : {-(1ll << 31), -(1ll << 31) + 1, -(1ll << 31) + 2, -(1ll << 30), -100001ll, -70000ll, -3001ll, 3001ll, 65536ll, 99999ll, 1ll << 24, (1ll << 24) + 1, (1ll << 30) - 1, 1ll << 30, (1ll << 31) - 2, (1ll << 31) - 1}) M.push_back((i32)n);
            Q = thin_(Q, lvl == 2 ? 4000 : lvl ? 900 : 100); tot += (u64)Q.size() * M.size(); parallel(Q.size(), [&](u64 i) { static thread_local std::vector<B> x; x.assign(M.size(), Q[i]); sink(M.size(), x.data(), M.data(), nullptr); }); }
        return tot;
    }
    A = thin_(A, lvl == 2 ? 420 : lvl ? 150 : 30); if (!newlits().empty()) { auto w = thin_(special_vals<B>(), 150); A.insert(A.end(), w.begin(), w.end()); uniq(A); }
    desc = fmt("%zu^3 triples", A.size()); tot += (u64)A.size() * A.size() * A.size();
    parallel(A.size() * A.size(), [&](u64 i) { static thread_local std::vector<B> x, y; size_t m = A.size(); x.assign(m, A[i / m]); y.assign(m, A[i % m]); sink(m, x.data(), y.data(), A.data()); });
    return tot;
}
static u64 gen(const Op &op, int lvl, const Sink &s, std::string &d) {
    switch (op.w) { case 16: return gen_b<u16>(op, lvl, s, d); case 32: return gen_b<u32>(op, lvl, s, d); case 64: return gen_b<u64>(op, lvl, s, d); default: return gen_b<u128>(op, lvl, s, d); }
}
static int wo1(const Op &o) { return o.c == CUI ? 4 : o.w / 8; }
static int wo2(const Op &o) { return o.c == CUTT ? o.w / 8 : (o.c == CUTI || o.c == CTTI) ? 4 : 0; }
static bool isnan_b(const void *p, int w) { switch (w) { case 2: return F<u16>::nan(*(u16 *)p); case 4: return F<u32>::nan(*(u32 *)p); case 8: return F<u64>::nan(*(u64 *)p); default: return F<u128>::nan(*(u128 *)p); } }
static std::string hexb(const void *p, int w) { switch (w) { case 2: return hex(*(u16 *)p); case 4: return hex(*(u32 *)p); case 8: return hex(*(u64 *)p); default: return hex(*(u128 *)p); } }
static std::vector<std::string> inhex(const Op &o, size_t i, const void *a, const void *b, const void *c) {
    int w = o.w / 8; std::vector<std::string> r{hexb((char *)a + i * w, w)};
    if (b) r.push_back(o.c == CTI || o.c == CIT ? fmt("%d", ((i32 *)b)[i]) : hexb((char *)b + i * w, w)); if (c) r.push_back(hexb((char *)c + i * w, w)); return r;
}
// same result: bit-identical, or both NaN when the output is a float
static bool same_out(const void *p, const void *q, int w, bool isf) { return !memcmp(p, q, w) || (isf && isnan_b(p, w) && isnan_b(q, w)); }

// ---------------------------------------------------------------- C23 totality
void c_total() {
    for (int i = 0; i < NOPS; i++) {
        const Op &o = OPS[i]; double t = elapsed(); std::string desc; Caller c(o.name, "checked");
        u64 n = gen(o, T() ? 2 : 1, [&](size_t n, const void *a, const void *b, const void *x) { static thread_local std::vector<char> r, r2; r.resize(n * 16); r2.resize(n * 16); int p = c.call(n, a, b, x, r.data(), r2.data()); G.validated += n - p; }, desc);
        G.states += n; G.per_op[o.name] = n; if (i % 7 == 0) note(std::string(o.name) + "[checked]: " + desc);
        tick(o.name, t); if (too_many()) break;
    }
    if (T()) for (int i = 0; i < NOPS; i++) { const Op &o = OPS[i]; if (o.c == CU && o.w == 32) { Caller c(o.name, "checked"); Dom<u32> d = dom_all<u32>(); explore<u32>(d, [&](const u32 *x, size_t n) { static thread_local std::vector<u32> y; y.resize(CH); c.u(n, x, y.data()); G.validated += n; }); G.per_op[o.name] += d.n; } }
    sample("every call returned, in a build with overflow checks, bounds checks and debug assertions on");
}
// ---------------------------------------------------------------- C25 configurations agree
static int lvl_cfg() { if (auto e = getenv("VERIF_LVL")) return atoi(e); return T() ? 2 : 1; }
// x87 code (i586) keeps intermediate results in a wider format: only routines that are exact there are in scope
static bool in_scope(const std::string &cfg, const Op &o) {
    if (cfg != "i586" || getenv("VERIF_I586")) return true;
    static const std::set<std::string> ok = {"ceil", "ceilf", "floor", "floorf", "trunc", "truncf", "fabs", "fabsf", "copysign", "copysignf", "fmax", "fmaxf", "fmin", "fminf", "fmaximum", "fmaximumf", "fminimum", "fminimumf", "fmaximum_num", "fmaximum_numf", "fminimum_num", "fminimum_numf", "fmod", "fmodf", "sqrt", "sqrtf", "frexp", "frexpf", "ilogb", "ilogbf", "modf", "modff", "nextafter", "nextafterf", "scalbn", "scalbnf", "ldexp", "ldexpf"};
    return ok.count(o.name);
}
void c_config() {
    std::vector<std::string> cf; for (auto &p : SHIM_PATHS) if (p.first != "arch") cf.push_back(p.first);
    for (int i = 0; i < NOPS; i++) {
        const Op &o = OPS[i]; double t = elapsed(); std::string desc; if (auto e = getenv("VERIF_OP")) if (strcmp(e, o.name)) continue;
        Caller c0(o.name, "arch"); std::vector<Caller> cs; for (auto &f : cf) if (in_scope(f, o) && shim(f)->sym(o.name, false)) cs.emplace_back(o.name, f);
        if (cs.empty()) continue;
        int w1 = wo1(o), w2 = wo2(o);
        u64 n = gen(o, lvl_cfg(), [&](size_t n, const void *a, const void *b, const void *x) {
            static thread_local std::vector<char> r, r2, s, s2; for (auto *v : {&r, &r2, &s, &s2}) v->resize(n * 16);
            if (c0.call(n, a, b, x, r.data(), r2.data())) return;
            for (auto &c : cs) { if (c.s->name == "dev" && !T() && (o.c == CIT)) continue;
                if (c.call(n, a, b, x, s.data(), s2.data())) continue; G.validated += n;
                bool e1 = !memcmp(r.data(), s.data(), n * w1), e2 = !w2 || !memcmp(r2.data(), s2.data(), n * w2); if (e1 && e2) continue;
                for (size_t k = 0; k < n; k++) {
                    if (!same_out(&r[k * w1], &s[k * w1], w1, o.c != CUI)) violation(o.name, c.s->name, inhex(o, k, a, b, x), hexb(&s[k * w1], w1), hexb(&r[k * w1], w1) + " (default build)");
                    else if (w2 && !same_out(&r2[k * w2], &s2[k * w2], w2, o.c == CUTT)) violation(o.name, c.s->name, inhex(o, k, a, b, x), "second result " + hexb(&s2[k * w2], w2), hexb(&r2[k * w2], w2) + " (default build)");
                    if (too_many()) return;
                } } }, desc);
        G.states += n * cs.size(); G.per_op[o.name] = n; if (i % 7 == 0) note(std::string(o.name) + ": " + desc); tick(o.name, t); if (too_many()) break;
    }
    sample("default build compared with: " + [&] { std::string s; for (auto &f : cf) s += f + " "; return s; }());
}
// ---------------------------------------------------------------- C21 special values
template <class B> struct SV {
    typedef F<B> Y; 
    static B of(double d) { if constexpr (sizeof(B) == 2) return bc<u16>((_Float16)d); else if constexpr (sizeof(B) == 4) return bc<u32>((float)d); else if constexpr (sizeof(B) == 8) return bc<u64>(d); else return bc<u128>((f128)d); }
    // 0 not an integer, 1 odd, 2 even (finite x)
    static int integer(B x) { B a = x & Y::ABS; if (a == 0) return 2; int e = Y::ex(a) - Y::BIAS; if (e < 0) return 0; if (e > Y::SIG) return 2; B fr = (B)(((B)1 << (Y::SIG - e)) - 1); if (a & fr) return 0; B m = (B)((a & Y::SIGM) | ((B)1 << Y::SIG)); return (m >> (Y::SIG - e)) & 1 ? 1 : 2; }
    // exact result the C standard (Annex F) fixes for f(x); false when it fixes none
    static bool un(const std::string &f, B x, B &r) {
        B a = x & Y::ABS, s = x & Y::SIGN; const B inf = Y::INF, nan = Y::QNAN, one = Y::ONE; bool z = a == 0, i = a == inf, ng = s != 0; static const B two = of(2);
        if (Y::nan(x)) { r = nan; return true; }
        if (f == "acos") { if (a > one) r = nan; else if (x == one) r = 0; else return false; return true; }
        if (f == "asin") { if (a > one) r = nan; else if (z) r = x; else return false; return true; }
        if (f == "atan" || f == "sin" || f == "tan") { if (z) r = x; else if (i && f != "atan") r = nan; else return false; return true; }
        if (f == "acosh") { if (ng || a < one) r = nan; else if (x == one) r = 0; else if (i) r = inf; else return false; return true; }
        if (f == "asinh" || f == "sinh" || f == "cbrt" || f == "ceil" || f == "floor" || f == "trunc" || f == "round" || f == "roundeven" || f == "rint") { if (z || i) r = x; else return false; return true; }
        if (f == "atanh") { if (a > one) r = nan; else if (a == one) r = s | inf; else if (z) r = x; else return false; return true; }
        if (f == "cos") { if (z) r = one; else if (i) r = nan; else return false; return true; }
        if (f == "cosh") { if (z) r = one; else if (i) r = inf; else return false; return true; }
        if (f == "tanh" || f == "erf") { if (z) r = x; else if (i) r = s | one; else return false; return true; }
        if (f == "erfc") { if (z) r = one; else if (i) r = ng ? two : 0; else return false; return true; }
        if (f == "exp" || f == "exp2" || f == "exp10") { if (z) r = one; else if (i) r = ng ? 0 : inf; else return false; return true; }
        if (f == "expm1") { if (z) r = x; else if (i) r = ng ? (B)(Y::SIGN | one) : inf; else return false; return true; }
        if (f == "log" || f == "log2" || f == "log10") { if (z) r = Y::SIGN | inf; else if (ng) r = nan; else if (x == one) r = 0; else if (i) r = inf; else return false; return true; }
        if (f == "log1p") { if (z) r = x; else if (ng && a > one) r = nan; else if (ng && a == one) r = Y::SIGN | inf; else if (i) r = inf; else return false; return true; }
        if (f == "sqrt") { if (z) r = x; else if (ng) r = nan; else if (i) r = inf; else return false; return true; }
        if (f == "fabs") { r = a; return true; }
        if (f == "lgamma") { if (i || z || (ng && integer(x))) r = inf; else if (x == one || x == two) r = 0; else return false; return true; }
        if (f == "tgamma") { if (z) r = s | inf; else if (ng && (i || integer(x))) r = nan; else if (i) r = inf; else return false; return true; }
        if (f == "j0" ) { if (i) r = 0; else if (z) r = one; else return false; return true; }
        if (f == "y0" || f == "y1") { if (z) r = Y::SIGN | inf; else if (ng) r = nan; else if (i) r = 0; else return false; return true; }
        return false;
    }
    static bool bi(const std::string &f, B x, B y, B &r) {
        B a = x & Y::ABS, b = y & Y::ABS, sx = x & Y::SIGN, sy = y & Y::SIGN; const B inf = Y::INF, nan = Y::QNAN, one = Y::ONE; bool xn = Y::nan(x), yn = Y::nan(y);
        if (f == "hypot") { if (a == inf || b == inf) r = inf; else if (xn || yn) r = nan; else if (b == 0) r = a; else if (a == 0) r = b; else return false; return true; }
        if (f == "pow") {
            if (x == one || b == 0) { r = one; return true; } if (xn || yn) { r = nan; return true; }
            int k = b == inf ? 2 : integer(y);
            if (a == 0) { if (sy) r = k == 1 ? (B)(sx | inf) : inf; else r = k == 1 ? (B)sx : 0; return true; }
            if (b == inf) { if (a == one) r = one; else if ((a > one) == (sy == 0)) r = inf; else r = 0; return true; }
            if (a == inf) { if (!sx) r = sy ? 0 : inf; else if (sy) r = k == 1 ? Y::SIGN : 0; else r = k == 1 ? (B)(Y::SIGN | inf) : inf; return true; }
            if (sx && !k) { r = nan; return true; } if (x == (Y::SIGN | one)) { r = k == 1 ? x : one; return true; } if (y == one) { r = x; return true; } return false;
        }
        if (f == "fmax" || f == "fmin" || f == "fmaximum_num" || f == "fminimum_num" || f == "copysign") { if (xn && yn && f != "copysign") { r = nan; return true; } return false; }
        if (xn || yn) { r = nan; return true; }
        if (f == "fmod" || f == "remainder" || f == "remquo") { if (b == 0 || a == inf) r = nan; else if (a == 0 || b == inf) r = x; else return false; return true; }
        if (f == "atan2") { if (a == 0 && !sy && b != inf) { r = x; return true; } if (a == 0 && y == inf) { r = x; return true; } if (Y::fin(x) && y == inf) { r = sx; return true; } return false; }
        if (f == "nextafter") { if (x == y) { r = y; return true; } if (a == 0 && b == 0) { r = y; return true; } return false; }
        if (f == "fdim") { if (a == 0 && b == 0) { r = 0; return true; } if (a == inf && x == y) { r = 0; return true; } if (x == inf) { r = inf; return true; } if (y == inf || x == (Y::SIGN | inf)) { r = 0; return true; } if (y == (Y::SIGN | inf)) { r = inf; return true; } return false; }
        return false;
    }
    static bool ter(B x, B y, B z, B &r) { // fma
        B a = x & Y::ABS, b = y & Y::ABS, c = z & Y::ABS, s = (x ^ y) & Y::SIGN; if (Y::nan(x) || Y::nan(y) || Y::nan(z)) { r = Y::QNAN; return true; }
        if ((a == Y::INF && b == 0) || (a == 0 && b == Y::INF)) { r = Y::QNAN; return true; }
        if (a == Y::INF || b == Y::INF) { r = c == Y::INF && (z & Y::SIGN) != s ? Y::QNAN : (B)(s | Y::INF); return true; }
        if (c == Y::INF) { r = z; return true; } if ((a == 0 || b == 0) && c) { r = z; return true; }
        if ((a == 0 || b == 0) && !c) { r = s == (z & Y::SIGN) ? z : 0; return true; } return false; }
};
template <class B> static void special_w(const Op &o, const char *cfg, int lvl) {
    std::string f = base_of(o.name), desc; Caller c(o.name, cfg); double t = elapsed(); std::atomic<u64> fixed{0};
    int w1 = wo1(o), w2 = wo2(o); typedef F<B> Y;
    auto judge = [&](size_t n, const void *a, const void *b, const void *z) {
        static thread_local std::vector<char> r, r2; r.resize(n * 16); r2.resize(n * 16); if (c.call(n, a, b, z, r.data(), r2.data())) return; u64 fx = 0;
        for (size_t i = 0; i < n; i++) {
            B x = ((const B *)a)[i], e = 0, e2 = 0; bool have = false, have2 = false; i64 iv = 0; bool isint = false; i64 ia[2] = {0, 0};
            switch (o.c) {
            case CU: have = SV<B>::un(f, x, e); break;
            case CB: have = SV<B>::bi(f, x, ((const B *)b)[i], e); break;
            case CT: have = SV<B>::ter(x, ((const B *)b)[i], ((const B *)z)[i], e); break;
            case CTTI: have = SV<B>::bi("remquo", x, ((const B *)b)[i], e); break;
            case CTI: if (Y::nan(x)) { e = Y::QNAN; have = true; } else if (Y::inf(x) || Y::zero(x) || ((const i32 *)b)[i] == 0) { e = x; have = true; } break;
            case CIT: if (Y::nan(x)) { e = Y::QNAN; have = true; } break;
            case CUTT: if (f == "sincos") { have = SV<B>::un("sin", x, e); have2 = SV<B>::un("cos", x, e2); } else { if (Y::nan(x)) { e = e2 = Y::QNAN; have = have2 = true; } else if (Y::inf(x)) { e = x & Y::SIGN; e2 = x; have = have2 = true; } else if (Y::zero(x)) { e = e2 = x; have = have2 = true; } } break;
            case CUTI: if (f == "frexp") { if (Y::nan(x)) e = Y::QNAN, have = true; else if (Y::inf(x)) e = x, have = true; else if (Y::zero(x)) { e = x; have = true; isint = true; iv = 0; } } else have = SV<B>::un("lgamma", x, e); break;
            case CUI: { i32 v = ((i32 *)r.data())[i]; have = false; if (Y::nan(x)) { ia[0] = INT32_MIN; ia[1] = INT32_MAX; } else if (Y::inf(x)) ia[0] = ia[1] = INT32_MAX; else if (Y::zero(x)) { ia[0] = INT32_MIN; ia[1] = -INT32_MAX; } else break; fx++; if (v != ia[0] && v != ia[1]) violation(o.name, cfg, inhex(o, i, a, b, z), fmt("%d", v), fmt("%lld", (long long)ia[0])); break; }
            }
            if (have) { fx++; if (!same_out(&r[i * w1], &e, w1, true)) { violation(o.name, cfg, inhex(o, i, a, b, z), hexb(&r[i * w1], w1), hex(e)); } else if (have2 && !same_out(&r2[i * w2], &e2, w2, true)) violation(o.name, cfg, inhex(o, i, a, b, z), "second result " + hexb(&r2[i * w2], w2), hex(e2));
                else if (isint && ((i32 *)r2.data())[i] != iv) violation(o.name, cfg, inhex(o, i, a, b, z), fmt("second result %d", ((i32 *)r2.data())[i]), fmt("%lld", (long long)iv)); }
            if (too_many()) return;
        }
        fixed += fx;
    };
    bool unary = o.c == CU || o.c == CUTT || o.c == CUTI || o.c == CUI;
    u64 n = gen(o, unary && !T() ? 0 : lvl, judge, desc);
    if (unary && lvl) { // every NaN pattern (binary32), a lattice of them otherwise; every integer and half-integer up to 2^17
        Dom<B> d; if constexpr (sizeof(B) == 4) { d.n = 2ull * ((1 << 23) - 1); d.fill = [](u64 s, size_t c, B *q) { for (size_t i = 0; i < c; i++) { u64 v = s + i; q[i] = (B)((u32)(v & 1) << 31 | (0x7f800001u + (u32)(v >> 1))); } }; }
        else d = dom_lattice<B>(Y::EMASK, Y::EMASK, std::min(Y::SIG, 16), low_patterns<B>(6));
        n += d.n; parallel((d.n + CH - 1) / CH, [&](u64 k) { static thread_local std::vector<B> q; q.resize(CH); u64 s = k * CH; size_t m = std::min<u64>(CH, d.n - s); d.fill(s, m, q.data()); judge(m, q.data(), nullptr, nullptr); });
        std::vector<B> v; for (u64 k = 1; k <= (1 << 16); k++) { B x = enc<B>(false, (W)k, -1); v.push_back(x); v.push_back(x | Y::SIGN); } for (int e = Y::BIAS; e < Y::EMASK && e < Y::BIAS + Y::SIG + 3; e++) for (int sh = 0; sh <= Y::SIG; sh++) for (B sg : {(B)0, Y::SIGN}) { v.push_back(sg | ((B)e << Y::SIG) | (((B)1 << sh) & Y::SIGM)); v.push_back(sg | ((B)e << Y::SIG) | (B)(Y::SIGM & ~(((B)1 << sh) - 1))); } uniq(v);
        n += v.size(); for (size_t s = 0; s < v.size(); s += CH) judge(std::min(CH, v.size() - s), v.data() + s, nullptr, nullptr);
    }
    G.states += n; G.validated += fixed; G.per_op[o.name] += n; G.outcomes[std::string("fixed results ") + o.name] += fixed; tick(o.name, t);
}
void c_special() {
    for (auto cfg : configs()) for (int i = 0; i < NOPS; i++) {
        const Op &o = OPS[i]; int lvl = T() ? 2 : !strcmp(cfg, "arch") ? 1 : 0;
        switch (o.w) { case 16: special_w<u16>(o, cfg, lvl); break; case 32: special_w<u32>(o, cfg, lvl); break; case 64: special_w<u64>(o, cfg, lvl); break; default: special_w<u128>(o, cfg, lvl); }
        if (too_many()) return;
    }
    sample("pow(-0, -3) = -inf; hypot(NaN, -inf) = +inf; lgamma(-5) = +inf; atan2(-0, +1) = -0");
}
// ---------------------------------------------------------------- C22 exact identities and ranges
template <class B> static bool sameB(B x, B y) { return x == y || (F<B>::nan(x) && F<B>::nan(y)); }
template <class B> static std::vector<Dom<B>> id_doms() {
    std::vector<Dom<B>> v; if constexpr (sizeof(B) == 4) { if (T()) { Dom<B> d; d.n = 0x7f800001ull; d.desc = "every non-negative binary32 value"; d.fill = [](u64 s, size_t c, B *o) { for (size_t i = 0; i < c; i++) o[i] = (B)(s + i); }; v.push_back(d); } else { v.push_back(dom_lattice<B>(0, 255, 15, low_patterns<B>(6), 1)); v.push_back(dom_lattice<B>(110, 145, 19, low_patterns<B>(5), 1)); } }
    else { v.push_back(dom_lattice<B>(0, F<B>::EMASK, T() ? 15 : 10, low_patterns<B>(4), 1)); v.push_back(dom_lattice<B>(F<B>::BIAS - 30, F<B>::BIAS + 12, T() ? 22 : 18, low_patterns<B>(4), 1)); }
    auto a = alpha<B>(1, 1 << 20, 1000); for (B &x : a) x &= F<B>::ABS; v.push_back(dom_vec(a, "source constants, integers, half-integers, format edges"));
    if (!newlits().empty()) { std::vector<B> w; for (B x : special_vals<B>()) add_neigh(w, x, 1024); if constexpr (sizeof(B) == 8) { auto &d = delta_dom64(); size_t o = w.size(); w.resize(o + d.n); d.fill(0, d.n, w.data() + o); } for (B &x : w) x &= F<B>::ABS; v.push_back(dom_vec(w, "constants new in the current sources, neighbours")); }
    return v;
}
template <class B> static void identities(const char *cfg) {
    typedef F<B> Y; std::string sf = sizeof(B) == 4 ? "f" : ""; auto D = id_doms<B>(); double t;
    auto reg = [&](const std::string &op, const std::string &what, u64 n) { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += n; if (G.notes.size() < 120) G.notes.push_back(op + "[" + cfg + "]: " + what + fmt(" on %llu states", (unsigned long long)n)); };
    bool jslow;
    auto sym = [&](const char *b, bool odd, double lo, double hi) {   // odd/even, and |f| range for x >= 0
        std::string op = b + sf; Caller c(op, cfg); t = elapsed(); B blo = SV<B>::of(lo), bhi = SV<B>::of(hi);
        for (auto &d : D) { reg(op, std::string(odd ? "odd" : "even") + " symmetry and range", d.n); explore<B>(d, [&](const B *x, size_t n) {
            static thread_local std::vector<B> m, y, z; m.resize(CH); y.resize(CH); z.resize(CH); for (size_t i = 0; i < n; i++) m[i] = x[i] ^ Y::SIGN; if (c.u(n, x, y.data()) | c.u(n, m.data(), z.data())) return; G.validated += 2 * n;
            for (size_t i = 0; i < n; i++) { B e = odd ? (B)(y[i] ^ Y::SIGN) : y[i]; if (!sameB(z[i], e) && !(Y::inf(x[i]) && Y::zero(z[i]) && Y::zero(e))) violation(op, cfg, {hex(m[i])}, hex(z[i]), hex(e) + (odd ? " = -f(-x)" : " = f(-x)"));
                if (!Y::nan(y[i]) && (Y::ord(y[i]) < Y::ord(blo) || Y::ord(y[i]) > Y::ord(bhi))) violation(op, cfg, {hex(x[i])}, hex(y[i]), fmt("a value in [%g, %g]", lo, hi)); if (too_many()) return; } }); }
        tick(op, t); };
    (void)jslow; double I = INFINITY, h = sizeof(B) == 4 ? (double)1.57079637050628662109375f : 1.5707963267948966;
    sym("sin", 1, -1, 1); sym("tan", 1, -I, I); sym("asin", 1, 0, h); sym("atan", 1, 0, h); sym("sinh", 1, 0, I); sym("tanh", 1, 0, 1); sym("asinh", 1, 0, I); sym("atanh", 1, 0, I); sym("cbrt", 1, 0, I); sym("erf", 1, 0, 1); sym("cos", 0, -1, 1); sym("cosh", 0, 1, I); sym("j0", 0, -1, 1); sym("j1", 1, -0.6, 0.6); sym("rint", 1, 0, I); sym("roundeven", 1, 0, I); sym("round", 1, 0, I); sym("trunc", 1, 0, I);
    auto rng = [&](const char *b, double lo, double hi, double lo2, double hi2) { std::string op = b + sf; Caller c(op, cfg); t = elapsed(); B l[2] = {SV<B>::of(lo), SV<B>::of(lo2)}, g[2] = {SV<B>::of(hi), SV<B>::of(hi2)};
        for (auto &d : D) for (int s = 0; s < 2; s++) { reg(op, s ? "range for negative arguments" : "range for positive arguments", d.n); explore<B>(d, [&](const B *x, size_t n) { static thread_local std::vector<B> m, y; m.resize(CH); y.resize(CH); for (size_t i = 0; i < n; i++) m[i] = x[i] ^ (s ? Y::SIGN : 0); if (c.u(n, m.data(), y.data())) return; G.validated += n;
            for (size_t i = 0; i < n; i++) if (!Y::nan(y[i]) && (Y::ord(y[i]) < Y::ord(l[s]) || Y::ord(y[i]) > Y::ord(g[s]))) { violation(op, cfg, {hex(m[i])}, hex(y[i]), fmt("a value in [%g, %g]", s ? lo2 : lo, s ? hi2 : hi)); if (too_many()) return; } }); }
        tick(op, t); };
    double pi = sizeof(B) == 4 ? (double)3.1415927410125732421875f : 3.141592653589793;
    rng("acos", 0, h, 0, pi); rng("exp", 1, I, 0, 1); rng("exp2", 1, I, 0, 1); rng("exp10", 1, I, 0, 1); rng("expm1", 0, I, -1, 0); rng("erfc", 0, 1, 1, 2); rng("acosh", 0, I, 0, I); rng("sqrt", 0, I, 0, 0); rng("fabs", 0, I, 0, I); rng("log1p", 0, I, -I, 0); rng("y0", -I, 0.6, -I, 0); rng("y1", -I, 0.6, -I, 0);
    // sincos is (sin, cos); lgamma_r returns lgamma; modf's whole part is trunc
    auto pr = [&](const char *two, const char *a, const char *b) { std::string op = two == std::string("lgamma_r") ? (sizeof(B) == 4 ? "lgammaf_r" : "lgamma_r") : two + sf; Caller c(op, cfg), ca(a + sf, cfg); std::unique_ptr<Caller> cb(b ? new Caller(b + sf, cfg) : nullptr); t = elapsed(); bool md = !strcmp(two, "modf");
        for (auto &d : D) for (int s = 0; s < 2; s++) { reg(op, "agrees with its single-result counterparts", d.n); explore<B>(d, [&](const B *x, size_t n) { static thread_local std::vector<B> m, y, z, p, q; for (auto *v : {&m, &y, &z, &p, &q}) v->resize(CH); for (size_t i = 0; i < n; i++) m[i] = x[i] ^ (s ? Y::SIGN : 0);
            if (c.call(n, m.data(), nullptr, nullptr, y.data(), z.data()) | ca.u(n, m.data(), p.data()) | (cb ? cb->u(n, m.data(), q.data()) : 0)) return; G.validated += n;
            for (size_t i = 0; i < n; i++) { if (md ? !sameB(z[i], p[i]) : !sameB(y[i], p[i])) violation(op, cfg, {hex(m[i])}, hex(md ? z[i] : y[i]), hex(p[i]) + " from " + a); if (cb && !sameB(z[i], q[i])) violation(op, cfg, {hex(m[i])}, hex(z[i]), hex(q[i]) + " from " + b); if (too_many()) return; } }); }
        tick(op, t); };
    pr("sincos", "sin", "cos"); pr("lgamma_r", "lgamma", nullptr); pr("modf", "trunc", nullptr);
    // ceil(x) = -floor(-x)
    { std::string op = "ceil" + sf; Caller c(op, cfg), g("floor" + sf, cfg); for (auto &d : D) for (int s = 0; s < 2; s++) { reg(op, "ceil(x) = -floor(-x)", d.n); explore<B>(d, [&](const B *x, size_t n) { static thread_local std::vector<B> m, k, y, z; for (auto *v : {&m, &k, &y, &z}) v->resize(CH); for (size_t i = 0; i < n; i++) { m[i] = x[i] ^ (s ? Y::SIGN : 0); k[i] = m[i] ^ Y::SIGN; } if (c.u(n, m.data(), y.data()) | g.u(n, k.data(), z.data())) return; G.validated += n; for (size_t i = 0; i < n; i++) if (!sameB(y[i], (B)(z[i] ^ Y::SIGN))) { violation(op, cfg, {hex(m[i])}, hex(y[i]), hex((B)(z[i] ^ Y::SIGN))); if (too_many()) return; } }); } }
    // two-argument identities over all pairs of an alphabet
    auto A = alpha<B>(sizeof(B) == 4 ? (T() ? 1 : 2) : (T() ? 5 : 17), T() ? 1500 : 500, T() ? 64 : 16); size_t m = A.size();
    struct R2 { const char *f, *g; int kind; };   // kind 0 symmetric, 1 |f| even in both, 2 atan2 quadrant, 3 first of remquo = remainder, 4 f(x,y) = -f(-x,y)
    for (R2 r : {R2{"hypot", "", 0}, {"hypot", "", 1}, {"atan2", "", 4}, {"fmod", "", 4}, {"fmod", "", 5}, {"remainder", "", 4}, {"remainder", "", 5}, {"remquo", "remainder", 3}, {"fdim", "", 6}, {"pow", "", 7}}) {
        std::string op = r.f + sf; Caller c(op, cfg); std::unique_ptr<Caller> g(*r.g ? new Caller(r.g + sf, cfg) : nullptr); t = elapsed(); u64 tot = (u64)m * m; reg(op, fmt("two-argument identity %d", r.kind), tot);
        static std::vector<B> N; N = A; for (B &x : N) x ^= Y::SIGN;
        parallel(m, [&](u64 i) { static thread_local std::vector<B> x, y, z; static thread_local std::vector<i32> q; x.assign(m, A[i]); y.resize(m); z.resize(m); q.resize(m); int bad;
            if (r.kind == 3) bad = c.call(m, x.data(), A.data(), nullptr, y.data(), q.data()) | g->b(m, x.data(), A.data(), z.data()); else { bad = c.b(m, x.data(), A.data(), y.data());
                if (r.kind == 0) bad |= c.b(m, A.data(), x.data(), z.data()); else if (r.kind == 5) bad |= c.b(m, x.data(), N.data(), z.data()); else { if (r.kind == 6) { bad |= c.b(m, A.data(), x.data(), z.data()); } else { for (auto &v : x) v ^= Y::SIGN; bad |= c.b(m, x.data(), r.kind == 1 ? N.data() : A.data(), z.data()); x.assign(m, A[i]); } } }
            if (bad) return; G.validated += m;
            for (size_t j = 0; j < m; j++) { bool ok; switch (r.kind) { case 4: ok = sameB(z[j], (B)(y[j] ^ Y::SIGN)); break; case 6: ok = Y::nan(y[j]) ? Y::nan(z[j]) : (Y::zero(y[j]) || Y::zero(z[j])) && !Y::neg(y[j]) && !Y::neg(z[j]); break;
                case 7: { int k = Y::nan(A[j]) ? 0 : Y::inf(A[j]) ? 2 : SV<B>::integer(A[j]); ok = !k || Y::nan(x[j]) ? true : k == 2 ? sameB(y[j], z[j]) : sameB(z[j], (B)(y[j] ^ Y::SIGN)); break; } default: ok = sameB(y[j], z[j]); }
                if (!ok) { violation(op, cfg, {hex(A[i]), hex(A[j])}, hex(y[j]), hex(z[j]) + fmt(" by identity %d", r.kind)); if (too_many()) return; } } });
        G.states += tot; tick(op, t);
    }
    // ldexp is scalbn
    { Caller c("ldexp" + sf, cfg), g("scalbn" + sf, cfg); auto N = nalpha(false); reg("ldexp" + sf, "equals scalbn", (u64)m * N.size()); parallel(m, [&](u64 i) { static thread_local std::vector<B> x, y, z; x.assign(N.size(), A[i]); y.resize(N.size()); z.resize(N.size()); if (c.b(N.size(), x.data(), N.data(), y.data()) | g.b(N.size(), x.data(), N.data(), z.data())) return; G.validated += N.size(); for (size_t j = 0; j < N.size(); j++) if (!sameB(y[j], z[j])) { violation("ldexp" + sf, cfg, {hex(A[i]), fmt("%d", N[j])}, hex(y[j]), hex(z[j])); if (too_many()) return; } }); G.states += (u64)m * N.size(); }
}
void c_identity() {
    for (auto cfg : configs()) { if (strcmp(cfg, "arch") && !T()) continue; identities<u32>(cfg); if (!too_many()) identities<u64>(cfg); }
    sample("sinf(0xbf800000) = -sinf(0x3f800000); sincosf(x) = (sinf(x), cosf(x))");
}
// ---------------------------------------------------------------- C24 purity, reentrancy
static unsigned short x87cw() { unsigned short w; __asm__ volatile("fnstcw %0" : "=m"(w)); return w; }
struct One { const Op *o; void *fn; alignas(16) char a[16], b[16], c[16]; };
struct alignas(16) Out { char p[16], q[16]; bool operator==(const Out &r) const { return !memcmp(this, &r, 32); } };
static inline int call1(const One &k, Out &r, volatile size_t *pr) {
    memset(&r, 0, sizeof r);
    switch (k.o->c) {
    case CU: case CUI: return ((F2)k.fn)(1, pr, k.a, r.p);
    case CB: case CTI: case CIT: return ((F3)k.fn)(1, pr, k.a, k.b, r.p);
    case CUTT: case CUTI: return ((F3)k.fn)(1, pr, k.a, r.p, r.q);
    case CT: return ((F4)k.fn)(1, pr, k.a, k.b, k.c, r.p);
    default: return ((F4)k.fn)(1, pr, k.a, k.b, r.p, r.q);
    }
}
static bool eq_out(const Op &o, const Out &x, const Out &y) { int w1 = wo1(o), w2 = wo2(o); return same_out(x.p, y.p, w1, o.c != CUI) && (!w2 || same_out(x.q, y.q, w2, o.c == CUTT)); }
static std::string out_s(const Op &o, const Out &x) { std::string s = hexb(x.p, wo1(o)); if (wo2(o)) s += "," + hexb(x.q, wo2(o)); return s; }
template <class B> static std::vector<B> collide(int n) {   // values that agree in one part of the representation and differ in another
    typedef F<B> Y; std::vector<B> v; double bases[] = {0.5123, 1.3, 3.7, 10.1, 100.3, 123456.7, 0.001, 2.0, 0.9, 27.5, 1e7, 60000.0};
    for (int i = 0; i < n && i < 12; i++) { B b = SV<B>::of(bases[i]); v.push_back(b); for (int s : {0, 1, Y::SIG / 4, Y::SIG / 2, Y::SIG - 2, Y::SIG - 1, Y::SIG}) v.push_back((B)(b ^ ((B)1 << s))); if (sizeof(B) >= 8) v.push_back((B)(b ^ ((B)1 << (Y::BITS / 2)))); v.push_back((B)(b | Y::SIGN)); }
    uniq(v); return v;
}
static std::vector<One> states_of(const Op &o, const Shim *s, int nb) {
    std::vector<One> r; void *fn = s->sym(o.name); auto add = [&](auto tag) { typedef decltype(tag) B; auto v = collide<B>(nb);
        bool two = o.c == CB || o.c == CTTI, ti = o.c == CTI || o.c == CIT;
        // one value with every single bit flipped: any memo that ignores or folds a bit of its key confuses two of these
        std::vector<B> fl; if (nb >= 8) { B b0 = SV<B>::of(1.3), b1 = SV<B>::of(10.1); for (B b : {b0, b1}) { fl.push_back(b); for (int k = 0; k < F<B>::BITS; k++) fl.push_back((B)(b ^ ((B)1 << k))); } }
        if (!two && !ti && o.c != CT) { for (B x : fl) { One k{&o, fn, {}, {}, {}}; memcpy(k.a, &x, sizeof x); r.push_back(k); } }
        else if (ti) { for (size_t q = 0; q <= (size_t)F<B>::BITS && q < fl.size(); q++) { One k{&o, fn, {}, {}, {}}; i32 n = 3; memcpy(k.a, &fl[q], sizeof(B)); memcpy(k.b, &n, 4); r.push_back(k); } }
        else if (!fl.empty()) for (int pos = 0; pos < (o.c == CT ? 3 : 2); pos++) for (size_t q = 0; q <= (size_t)F<B>::BITS; q++) { One k{&o, fn, {}, {}, {}}; memcpy(k.a, &fl[pos == 0 ? q : 0], sizeof(B)); memcpy(k.b, &fl[F<B>::BITS + 1 + (pos == 1 ? q : 0)], sizeof(B)); memcpy(k.c, &fl[pos == 2 ? q : 1], sizeof(B)); r.push_back(k); }
        if (!two && !ti && o.c != CT) for (B x : v) { One k{&o, fn, {}, {}, {}}; memcpy(k.a, &x, sizeof x); r.push_back(k); }
        else if (ti) { for (B x : thin_(v, 4 * nb)) for (i32 n : {0, 1, 2, -3, 5, 7, 30}) { One k{&o, fn, {}, {}, {}}; memcpy(k.a, &x, sizeof x); memcpy(k.b, &n, 4); r.push_back(k); } }
        else for (B x : thin_(v, 3 * nb)) for (B y : thin_(v, 3 * nb)) { One k{&o, fn, {}, {}, {}}; memcpy(k.a, &x, sizeof x); memcpy(k.b, &y, sizeof y); memcpy(k.c, &x, sizeof x); r.push_back(k); } };
    switch (o.w) { case 16: add((u16)0); break; case 32: add((u32)0); break; case 64: add((u64)0); break; default: add((u128)0); }
    return r;
}
static std::vector<std::string> one_in(const One &k) { bool t = k.o->c == CB || k.o->c == CTTI || k.o->c == CTI || k.o->c == CIT || k.o->c == CT; return inhex(*k.o, 0, k.a, t ? k.b : nullptr, k.o->c == CT ? k.c : nullptr); }
static std::string one_s(const One &k) { std::string s = std::string(k.o->name) + "("; for (auto &i : one_in(k)) s += i + " "; return s + ")"; }
// single-step scheduler: run A, and before instruction K run the whole of B in the same address space
static thread_local u64 st_n, st_k; static thread_local const One *st_b; static thread_local Out *st_out; static thread_local bool st_hit;
static void on_step(int, siginfo_t *, void *uc_) {
    ucontext_t *uc = (ucontext_t *)uc_;
    if (++st_n == st_k) { volatile size_t pr; st_hit = true; if (st_b) call1(*st_b, *st_out, &pr); if (st_b) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; }
}
static u64 stepped(const One &a, Out &ra, u64 k, const One *b, Out *rb) {
    volatile size_t pr; st_n = 0; st_k = k; st_b = b; st_out = rb; st_hit = false;
    __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    call1(a, ra, &pr);
    __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
    return st_n;
}
// pages of the loaded library that the code under test could write
struct Seg { uintptr_t lo, hi; };
static std::vector<Seg> writable_segs(const std::string &path) {
    struct C { std::string p; std::vector<Seg> v; } c{path, {}};
    dl_iterate_phdr([](dl_phdr_info *i, size_t, void *q) { C *c = (C *)q; if (c->p != (i->dlpi_name ? i->dlpi_name : "")) return 0; uintptr_t rl = 0, rh = 0;
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rh = rl + i->dlpi_phdr[k].p_memsz; }
        for (int k = 0; k < i->dlpi_phnum; k++) { auto &h = i->dlpi_phdr[k]; if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue; uintptr_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz; if (rl <= lo && rh > lo) lo = rh; lo &= ~4095ull; if (rl && lo < rh && rh < lo + 4096) lo = (rh + 4095) & ~4095ull; hi = (hi + 4095) & ~4095ull; if (lo < hi) c->v.push_back({lo, hi}); }
        return 0; }, &c);
    return c.v;
}
void c_pure() {
    const char *cfgs[] = {"arch", "soft"};
    for (const char *cfg : cfgs) {
        if (!SHIM_PATHS.count(cfg)) continue; Shim *s = shim(cfg); bool main = !strcmp(cfg, "arch");
        std::vector<std::vector<One>> S; for (int i = 0; i < NOPS; i++) S.push_back(states_of(OPS[i], s, main ? (T() ? 12 : 8) : 4));
        auto segs = writable_segs(s->path); u64 bytes = 0; for (auto &g : segs) bytes += g.hi - g.lo;
        double t = elapsed(); std::atomic<u64> hist{0};
        // 0. which operations write memory that outlives the call: the library's writable pages are compared around every call of
        //    every state.  An operation that does is explored further: all its states before all states of every operation, triples, long runs
        auto snap = [&] { std::vector<char> b; for (auto &g : segs) b.insert(b.end(), (char *)g.lo, (char *)g.hi); return b; };
        std::vector<int> W; for (int i = 0; i < NOPS; i++) { auto b0 = snap(); volatile size_t pr; Out r; bool w = false; for (size_t k = 0; k < S[i].size() && !w; k++) { call1(S[i][k], r, &pr); w = snap() != b0; } if (w) { W.push_back(i); note(std::string(OPS[i].name) + "[" + cfg + "]: writes static memory (no violation by itself; its histories are explored in full)"); } }
        G.outcomes[std::string("operations that write static memory ") + cfg] = W.size(); note(fmt("%s: %llu bytes of writable library memory compared around the calls of %d operations, %d of which changed it", cfg, (unsigned long long)bytes, NOPS, (int)W.size()));
        if (!W.empty()) {
            std::vector<int> Wc = W; if (Wc.size() > 24) Wc = thin_(Wc, 24); double budget = T() ? 300 : 60;
            // one thread: the histories below are exact sequences
            for (int g : Wc) { if (too_many()) break; u64 h = 0; volatile size_t pr; Out r, d; double t1 = elapsed(), lim = budget / Wc.size();
                for (int p = 0; p < NOPS && !too_many(); p++) { int f = (g + (p & 1 ? NOPS - (p + 1) / 2 : p / 2)) % NOPS; auto x = thin_(S[g], 160), y = thin_(S[f], 160); std::vector<Out> base(y.size());
                    for (size_t b = 0; b < y.size(); b++) call1(y[b], base[b], &pr);
                    for (size_t a = 0; a < x.size() && !too_many(); a++) for (size_t b = 0; b < y.size(); b++) { call1(x[a], d, &pr); call1(y[b], r, &pr); h += 2; if (!eq_out(OPS[f], base[b], r)) { violation(OPS[f].name, cfg, one_in(y[b]), out_s(OPS[f], r) + " after " + one_s(x[a]), out_s(OPS[f], base[b]) + " after another call"); break; } }
                    if (elapsed() - t1 > lim * 0.6) { note(std::string(OPS[g].name) + fmt(": pairs with %d of %d operations in the time allowed", p + 1, NOPS)); break; } }
                auto x = thin_(S[g], 48); std::vector<Out> base(x.size()); for (size_t b = 0; b < x.size(); b++) call1(x[b], base[b], &pr);
                for (size_t a = 0; a < x.size() && !too_many(); a++) for (size_t b = 0; b < x.size() && !too_many(); b++) for (size_t c = 0; c < x.size(); c++) { call1(x[a], d, &pr); call1(x[b], d, &pr); call1(x[c], r, &pr); h += 3; if (!eq_out(OPS[g], base[c], r)) { violation(OPS[g].name, cfg, one_in(x[c]), out_s(OPS[g], r) + " after " + one_s(x[a]) + ", " + one_s(x[b]), out_s(OPS[g], base[c])); break; } }
                Out b0; call1(x[0], b0, &pr); for (u64 k = 0; k < 40000000 && !too_many(); k++) { call1(x[0], r, &pr); h++; if (!eq_out(OPS[g], b0, r)) { violation(OPS[g].name, cfg, one_in(x[0]), out_s(OPS[g], r) + fmt(" in call %llu of a row", (unsigned long long)k), out_s(OPS[g], b0)); break; } if (!(k & 4095) && elapsed() - t1 > lim) break; }
                hist += h; }
            tick("writers", t); t = elapsed();
        }
        // 1. every ordered pair of calls of one operation: the second result may not depend on the first call;
        //    initial FP status flags all clear or all raised; FP control state preserved
        parallel(NOPS, [&](u64 i) {
            auto &v = S[i]; std::vector<Out> base(v.size()); std::vector<bool> have(v.size(), false); u64 h = 0; volatile size_t pr; Out r, d;
            for (size_t x = 0; x < v.size() && !too_many(); x++) for (size_t y = 0; y < v.size(); y++) {
                unsigned cs = _mm_getcsr(); unsigned short cw = x87cw();
                _mm_setcsr((cs & ~0x3fu) | ((x + y) & 1 ? 0x3f : 0)); cs = _mm_getcsr();
                call1(v[x], d, &pr); call1(v[y], r, &pr); h += 2;
                if ((_mm_getcsr() ^ cs) & ~0x3fu || x87cw() != cw) { _mm_setcsr(cs & ~0x3fu); violation(OPS[i].name, cfg, one_in(v[y]), "floating-point control state changed", "unchanged"); }
                if (!have[y]) { base[y] = r; have[y] = true; } else if (!eq_out(OPS[i], base[y], r)) violation(OPS[i].name, cfg, one_in(v[y]), out_s(OPS[i], r) + " after " + one_s(v[x]), out_s(OPS[i], base[y]) + " after other calls");
                _mm_setcsr(cs & ~0x3fu);
            }
            // 2. histories across operations: f(x), g(y), h(z) for every ordered pair (g, h) of operations, then f(x) again
            hist += h;
        });
        tick("pairs", t); t = elapsed();
        std::vector<Out> ref(NOPS); std::vector<One> rep; for (int i = 0; i < NOPS; i++) { rep.push_back(S[i][S[i].size() / 3]); volatile size_t pr; call1(rep[i], ref[i], &pr); }
        parallel(NOPS, [&](u64 i) { volatile size_t pr; Out r; u64 h = 0;
            for (int g = 0; g < NOPS && !too_many(); g++) for (int k = 0; k < (T() ? NOPS : 6); k++) { int hh = T() ? k : (int)((i * 31 + g * 7 + k * 29) % NOPS); call1(S[g][S[g].size() / 2], r, &pr); call1(S[hh][S[hh].size() / 4], r, &pr); call1(rep[i], r, &pr); h += 3; if (!eq_out(OPS[i], r, ref[i])) { violation(OPS[i].name, cfg, one_in(rep[i]), out_s(OPS[i], r) + fmt(" after %s, %s", OPS[g].name, OPS[hh].name), out_s(OPS[i], ref[i])); break; } }
            hist += h; });
        // long runs of one call: nothing may change after a number of calls
        parallel(NOPS, [&](u64 i) { volatile size_t pr; Out r; u64 n = OPS[i].w == 128 ? 20000 : 70000, h = 0; if (!main) n = 2000; double t1 = elapsed(); for (; h < n && !too_many(); h++) { call1(rep[i], r, &pr); if (!eq_out(OPS[i], r, ref[i])) { violation(OPS[i].name, cfg, one_in(rep[i]), out_s(OPS[i], r) + fmt(" in call %llu of a row", (unsigned long long)h), out_s(OPS[i], ref[i])); break; } if (!(h & 1023) && elapsed() - t1 > 20) break; } hist += h; });
        G.outcomes[std::string("call histories ") + cfg] = hist; G.states += hist / 2; G.transitions += hist; G.validated += hist / 2; tick("histories", t); t = elapsed();
        // 3. preemption before every instruction of A by a complete call of B (same operation, other input; and another operation)
        struct sigaction sa {}, old {}; sa.sa_sigaction = on_step; sa.sa_flags = SA_SIGINFO | SA_NODEFER; 
        std::atomic<u64> sched{0}, instr{0}, capped{0};
        { parallel(1, [](u64) {}); }   // install the crash handlers first
        sigaction(SIGTRAP, &sa, &old);
        parallel(NOPS, [&](u64 i) {
            auto &v = S[i]; u64 n_s = 0; size_t m = v.size(); 
            for (size_t xi = 0; xi < (size_t)(main ? (T() ? 8 : 2) : 1) && !too_many(); xi++) {
                const One &a = v[(xi * 2 + 1) * m / (main ? (T() ? 16 : 4) : 4) % m]; Out ra, r0, rb, rb0; volatile size_t pr; call1(a, r0, &pr);
                u64 len = stepped(a, ra, ~0ull, nullptr, nullptr); instr += len; u64 cap = T() ? 6000 : 700, stride = len > cap ? len / cap + 1 : 1; if (stride > 1) capped++;
                const One *bs[2] = {&v[(xi + m / 2 + 1) % m], &rep[(i * 37 + 11) % NOPS]};
                for (int w = 0; w < (T() ? 2 : 1 + (int)(xi & 1)); w++) { const One &b = *bs[w]; call1(b, rb0, &pr);
                    for (u64 k = 1; k <= len; k += stride) { memset(&rb, 0xff, sizeof rb); stepped(a, ra, k, &b, &rb); n_s++; if (!st_hit) break;
                        if (!eq_out(*a.o, ra, r0)) { violation(a.o->name, cfg, one_in(a), out_s(*a.o, ra) + fmt(" when preempted before instruction %llu by ", (unsigned long long)k) + one_s(b), out_s(*a.o, r0)); break; }
                        if (!eq_out(*b.o, rb, rb0)) { violation(b.o->name, cfg, one_in(b), out_s(*b.o, rb) + fmt(" when run at instruction %llu of ", (unsigned long long)k) + one_s(a), out_s(*b.o, rb0)); break; }
                        // the interleaving may have left something behind: both calls again, in both orders
                        Out r2; for (const One *again : {&b, &a, &b}) { call1(*again, r2, &pr); const Out &want = again == &a ? r0 : rb0; if (!eq_out(*again->o, r2, want)) { violation(again->o->name, cfg, one_in(*again), out_s(*again->o, r2) + fmt(" after instruction %llu of ", (unsigned long long)k) + one_s(a) + " was preempted by " + one_s(b), out_s(*again->o, want)); break; } } } }
            }
            sched += n_s;
        });
        sigaction(SIGTRAP, &old, nullptr);
        G.outcomes[std::string("preemption schedules ") + cfg] = sched; G.outcomes[std::string("instructions stepped ") + cfg] = instr; G.outcomes[std::string("calls stepped with a stride ") + cfg] = capped; G.states += sched; G.transitions += sched * 2; G.validated += sched * 2; tick("preemption", t); t = elapsed();
        for (int i = 0; i < NOPS; i++) G.per_op[OPS[i].name] += S[i].size() * S[i].size();
    }
    sample("sin(1.3) preempted before each of its instructions by a complete call sin(10.1)");
}
