#include "oracle.h"
static bool avx() { static int v = -1; if (v < 0) { __builtin_cpu_init(); v = __builtin_cpu_supports("avx512f") && !getenv("VERIF_NOVEC"); } return v; }
#define L1(n) static double d_##n(double x) { return n(x); } static ld l_##n(ld x) { return n##l(x); }
L1(acos) L1(acosh) L1(asin) L1(asinh) L1(atan) L1(atanh) L1(cbrt) L1(cos) L1(cosh) L1(erf) L1(erfc) L1(exp) L1(exp2) L1(expm1) L1(log) L1(log10) L1(log1p) L1(log2) L1(sin) L1(sinh) L1(tan) L1(tanh) L1(lgamma) L1(tgamma)
static double d_exp10(double x) { return exp10(x); } static ld l_exp10(ld x) { return exp10l(x); }
#define R(n, a32, a64, a, b, c, d) {#n, a32, a64, d_##n, l_##n, n##f128, a, b, c, d}
static const Fn1 T1[] = {
    R(acos, 1, 1, 90, 128, 960, 1023), R(acosh, 4, 4, 126, 254, 1022, 1090), R(asin, 1, 1, 90, 128, 960, 1023), R(asinh, 2, 2, 90, 254, 985, 1090),
    R(atan, 1, 1, 90, 160, 985, 1100), R(atanh, 2, 2, 90, 128, 985, 1023), R(cbrt, 0, 0, 1, 254, 1000, 1046), R(cos, 1, 1, 90, 254, 985, 1100),
    R(cosh, 1, 1, 90, 135, 985, 1034), R(erf, 1, 1, 90, 130, 985, 1027), R(erfc, 4, 4, 90, 132, 960, 1028), R(exp, 1, 1, 90, 135, 960, 1034),
    R(exp2, 1, 1, 90, 135, 960, 1034), R(exp10, 6, 6, 90, 135, 960, 1034), R(expm1, 1, 1, 90, 135, 960, 1034), R(log, 1, 1, 1, 254, 1000, 1046),
    R(log10, 1, 1, 1, 254, 1000, 1046), R(log1p, 1, 1, 90, 254, 960, 1090), R(log2, 1, 1, 1, 254, 1000, 1046), R(sin, 1, 1, 90, 254, 985, 1100),
    R(sinh, 2, 2, 90, 135, 985, 1034), R(tan, 1, 1, 90, 254, 985, 1100), R(tanh, 2, 2, 90, 135, 985, 1030), R(lgamma, 16, 16, 90, 254, 985, 1060), R(tgamma, 1, 20, 90, 135, 960, 1031),
};
const Fn1 *fn1(const std::string &b) { for (auto &f : T1) if (b == f.base) return &f; fprintf(stderr, "no oracle %s\n", b.c_str()); exit(3); }
static double d_atan2(double a, double b) { return atan2(a, b); } static ld l_atan2(ld a, ld b) { return atan2l(a, b); }
static double d_hypot(double a, double b) { return hypot(a, b); } static ld l_hypot(ld a, ld b) { return hypotl(a, b); }
static double d_pow(double a, double b) { return pow(a, b); } static ld l_pow(ld a, ld b) { return powl(a, b); }
static const Fn2 T2[] = {{"atan2", 2, 2, d_atan2, l_atan2, atan2f128}, {"hypot", 1, 1, d_hypot, l_hypot, hypotf128}, {"pow", 1, 1, d_pow, l_pow, powf128}};
const Fn2 *fn2(const std::string &b) { for (auto &f : T2) if (b == f.base) return &f; exit(3); }

static std::mutex wm;
static void upd_worst(const std::string &op, u64 w) { std::lock_guard<std::mutex> l(wm); auto &x = G.worst[op]; if (w > x) x = w; }

// zero / infinity on exactly one side, or zeros of opposite sign: the class of the result is decided strictly
template <class B> static inline bool hard(B y, B r) { auto sp = [](B v) { v &= F<B>::ABS; return v == 0 || v == F<B>::INF; }; return y != r && (sp(y) || sp(r)); }
// C14 and C17 promise that overflow and underflow to zero happen exactly where the true value does them; the sign of a zero is decided everywhere
static bool strict_class() { static bool b = G.prop == "C14" || G.prop == "C17"; return b; }
template <class B> static bool class_ok(B y, f128 q) {
    if (q != q || F<B>::nan(y)) return true;
    B ya = y & F<B>::ABS; f128 e = q * (f128)0x1p-100L; bool any = false;
    for (f128 c : {q, q + e, q - e}) { if (c != c) c = q; B r = round_q<B>(c) & F<B>::ABS; any |= (ya == 0) == (r == 0) && (ya == F<B>::INF) == (r == F<B>::INF); }
    if (!any && strict_class()) return false;
    return ya != 0 || !!(y & F<B>::SIGN) == !!__builtin_signbit(q);
}
template <class B> static void adjudicate1(const std::string &op, const Fn1 &f, B x, B y, const char *cfg, int allowed, u64 &worst) {
    G.adjudicated++;
    f128 q = f.q(to_q<B>(x)); i128 s = steps<B>(y, q);
    if (s < 0) violation(op, cfg, {hex(x)}, hex(y), q != q ? "NaN" : hex(round_q<B>(q)));
    else if (s > allowed) violation(op, cfg, {hex(x)}, hex(y), hex(round_q<B>(q)) + fmt(" (distance %lld steps, bound %d)", (long long)(s > (i128)1e18 ? (i128)1e18 : s), allowed));
    else if (!class_ok<B>(y, q)) violation(op, cfg, {hex(x)}, hex(y), hex(round_q<B>(q)) + " (overflow, underflow to zero or sign of zero)");
    else if ((u64)s > worst) worst = (u64)s;
}
void judge32(const std::string &op, const Fn1 &f, const u32 *x, const u32 *y, size_t n, const char *cfg, int allowed) {
    u64 worst = 0; size_t i = 0; void *v = avx() ? vec1_find(f.base) : nullptr;
    G.validated += n;
    if (v) {
        for (; i + 512 <= n; i += 512) {
            u64 w; if (vec1_check(v, (const float *)x + i, (const float *)y + i, 512, allowed, &w)) { if (w > worst) worst = w; continue; }
            for (size_t j = i; j < i + 512; j++) {
                i128 d = F<u32>::nan(y[j]) || F<u32>::nan(x[j]) ? 99 : 0; if (!d) { double r = f.d(bc<float>(x[j])); u32 rf = bc<u32>((float)r); if (F<u32>::nan(rf)) d = 99; else { d = F<u32>::ord(y[j]) - F<u32>::ord(rf); if (d < 0) d = -d; if (hard<u32>(y[j], rf)) d = 99; } }
                if (d <= allowed) { if ((u64)d > worst) worst = (u64)d; continue; }
                if (too_many()) break;
                adjudicate1<u32>(op, f, x[j], y[j], cfg, allowed, worst);
            }
        }
    }
    for (; i < n && !too_many(); i++) {
        double r = f.d(bc<float>(x[i])); u32 rf = bc<u32>((float)r);
        bool yn = F<u32>::nan(y[i]), rn = F<u32>::nan(rf);
        if (yn && rn) continue;
        i128 d = F<u32>::ord(y[i]) - F<u32>::ord(rf); if (d < 0) d = -d;
        if (yn == rn && d <= allowed && !hard<u32>(y[i], rf)) { if ((u64)d > worst) worst = (u64)d; continue; }
        adjudicate1<u32>(op, f, x[i], y[i], cfg, allowed, worst);
    }
    upd_worst(op, worst);
}
static inline bool near_tie(ld r) { u64 m; memcpy(&m, &r, 8); unsigned t = m & 0x7ff; return t >= 0x3fc && t <= 0x404; }
void judge64(const std::string &op, const Fn1 &f, const u64 *x, const u64 *y, size_t n, const char *cfg, int allowed) {
    u64 worst = 0; G.validated += n;
    for (size_t i = 0; i < n && !too_many(); i++) {
        ld r = f.l(bc<double>(x[i])); u64 rf = bc<u64>((double)r);
        bool yn = F<u64>::nan(y[i]), rn = F<u64>::nan(rf);
        if (yn && rn) continue;
        i64 a = (i64)(y[i] & F<u64>::ABS), b = (i64)(rf & F<u64>::ABS); if (y[i] >> 63) a = -a; if (rf >> 63) b = -b;
        i128 d = (i128)a - b; if (d < 0) d = -d;
        if (yn == rn && (d < allowed || (d == allowed && !near_tie(r))) && !hard<u64>(y[i], rf)) { if ((u64)d > worst) worst = (u64)d; continue; }
        adjudicate1<u64>(op, f, x[i], y[i], cfg, allowed, worst);
    }
    upd_worst(op, worst);
}
template <class B> static void add_states(const std::string &op, const Dom<B> &d, const char *cfg) { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += d.n; G.notes.push_back(op + "[" + cfg + "]: " + d.desc + fmt(" = %llu inputs", (unsigned long long)d.n)); }
void check_unary32(const std::string &op, const Fn1 &f, const Dom<u32> &d, const char *cfg, int allowed) {
    if (allowed < 0) allowed = f.a32;
    Caller c(op, cfg); add_states(op, d, cfg);
    explore<u32>(d, [&](const u32 *x, size_t n) {
        static thread_local std::vector<u32> y; y.resize(CH); if (c.u(n, x, y.data())) return; judge32(op, f, x, y.data(), n, cfg, allowed);
    });
    if (!d.n) return; u32 b; d.fill(d.n / 3, 1, &b); u32 o; Caller(op, cfg).u(1, &b, &o); sample(op + "(" + hex(b) + ") = " + hex(o));
}
void check_unary64(const std::string &op, const Fn1 &f, const Dom<u64> &d, const char *cfg, int allowed) {
    if (allowed < 0) allowed = f.a64;
    Caller c(op, cfg); add_states(op, d, cfg);
    explore<u64>(d, [&](const u64 *x, size_t n) {
        static thread_local std::vector<u64> y; y.resize(CH); if (c.u(n, x, y.data())) return; judge64(op, f, x, y.data(), n, cfg, allowed);
    });
    if (!d.n) return; u64 b; d.fill(d.n / 3, 1, &b); u64 o; Caller(op, cfg).u(1, &b, &o); sample(op + "(" + hex(b) + ") = " + hex(o));
}
// ---------------------------------------------------------------- binary
template <class B> static void adjudicate2(const std::string &op, const Fn2 &f, B x, B z, B y, const char *cfg, int allowed, u64 &worst) {
    G.adjudicated++;
    f128 q = f.q(to_q<B>(x), to_q<B>(z)); i128 s = steps<B>(y, q);
    // C Annex F / IEEE: pow and hypot results for NaN operands follow the special-case list that glibc implements as well
    if (s < 0) violation(op, cfg, {hex(x), hex(z)}, hex(y), q != q ? "NaN" : hex(round_q<B>(q)));
    else if (s > allowed) violation(op, cfg, {hex(x), hex(z)}, hex(y), hex(round_q<B>(q)) + fmt(" (distance %lld steps, bound %d)", (long long)(s > (i128)1e18 ? (i128)1e18 : s), allowed));
    else if (!class_ok<B>(y, q)) violation(op, cfg, {hex(x), hex(z)}, hex(y), hex(round_q<B>(q)) + " (overflow, underflow to zero or sign of zero)");
    else if ((u64)s > worst) worst = (u64)s;
}
void judge2_32(const std::string &op, const Fn2 &f, const u32 *x, const u32 *z, const u32 *y, size_t n, const char *cfg, int allowed) {
    u64 worst = 0; size_t i = 0; void *v = avx() ? vec2_find(f.base) : nullptr; G.validated += n;
    auto one = [&](size_t j) {
        double r = f.d(bc<float>(x[j]), bc<float>(z[j])); u32 rf = bc<u32>((float)r);
        bool yn = F<u32>::nan(y[j]), rn = F<u32>::nan(rf); if (yn && rn) return;
        i128 d = F<u32>::ord(y[j]) - F<u32>::ord(rf); if (d < 0) d = -d;
        if (yn == rn && d <= allowed && !hard<u32>(y[j], rf)) { if ((u64)d > worst) worst = (u64)d; return; }
        if (!too_many()) adjudicate2<u32>(op, f, x[j], z[j], y[j], cfg, allowed, worst);
    };
    if (v) for (; i + 64 <= n; i += 64) { u64 w; if (vec2_check(v, (const float *)x + i, (const float *)z + i, (const float *)y + i, 64, allowed, &w)) { if (w > worst) worst = w; } else for (size_t j = i; j < i + 64; j++) one(j); }
    for (; i < n; i++) one(i);
    upd_worst(op, worst);
}
void judge2_64(const std::string &op, const Fn2 &f, const u64 *x, const u64 *z, const u64 *y, size_t n, const char *cfg, int allowed) {
    u64 worst = 0; G.validated += n;
    for (size_t i = 0; i < n && !too_many(); i++) {
        ld r = f.l(bc<double>(x[i]), bc<double>(z[i])); u64 rf = bc<u64>((double)r);
        bool yn = F<u64>::nan(y[i]), rn = F<u64>::nan(rf); if (yn && rn) continue;
        i64 a = (i64)(y[i] & F<u64>::ABS), b = (i64)(rf & F<u64>::ABS); if (y[i] >> 63) a = -a; if (rf >> 63) b = -b;
        i128 d = (i128)a - b; if (d < 0) d = -d;
        if (yn == rn && (d < allowed || (d == allowed && !near_tie(r))) && !hard<u64>(y[i], rf)) { if ((u64)d > worst) worst = (u64)d; continue; }
        adjudicate2<u64>(op, f, x[i], z[i], y[i], cfg, allowed, worst);
    }
    upd_worst(op, worst);
}
template <class B, class J> static void pairs(const std::string &op, const std::vector<B> &A, const std::vector<B> &Bv, const char *cfg, J judge) {
    Caller c(op, cfg); { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += (u64)A.size() * Bv.size(); G.notes.push_back(op + "[" + cfg + fmt("]: all ordered pairs over alphabets of %zu x %zu values", A.size(), Bv.size())); }
    parallel(A.size(), [&](u64 i) {
        static thread_local std::vector<B> x, y; x.assign(Bv.size(), A[i]); y.resize(Bv.size());
        if (c.b(Bv.size(), x.data(), Bv.data(), y.data())) return;
        judge(x.data(), Bv.data(), y.data(), Bv.size());
    });
    G.states += (u64)A.size() * Bv.size();
    sample(op + "(" + hex(A[A.size() / 2]) + ", " + hex(Bv[Bv.size() / 3]) + ")");
}
void check_pairs32(const std::string &op, const Fn2 &f, const std::vector<u32> &A, const std::vector<u32> &Bv, const char *cfg, int allowed) {
    if (allowed < 0) allowed = f.a32; pairs<u32>(op, A, Bv, cfg, [&](const u32 *x, const u32 *z, const u32 *y, size_t n) { judge2_32(op, f, x, z, y, n, cfg, allowed); });
}
void check_pairs64(const std::string &op, const Fn2 &f, const std::vector<u64> &A, const std::vector<u64> &Bv, const char *cfg, int allowed) {
    if (allowed < 0) allowed = f.a64; pairs<u64>(op, A, Bv, cfg, [&](const u64 *x, const u64 *z, const u64 *y, size_t n) { judge2_64(op, f, x, z, y, n, cfg, allowed); });
}
// ---------------------------------------------------------------- alphabets
// constants that the sources gained since the snapshot, read as patterns, high words, exponents and values of the format
template <class B> static std::vector<B> new_patterns() {
    typedef F<B> T; std::vector<B> v, c;
    for (auto &p : newlits()) {
        u64 L = p.second;
        if (p.first == 'i') {
            if (T::BITS >= 64 || !(L >> (T::BITS & 63))) c.push_back((B)L);
            for (int sh : {T::BITS - 16, T::BITS - 32, T::BITS - 64}) if (sh > 0 && (T::BITS - sh >= 64 || !(L >> ((T::BITS - sh) & 63)))) c.push_back((B)((B)L << sh));
            if (L <= (u64)T::EMASK) c.push_back((B)((B)L << T::SIG));
            if (L <= (u64)T::BIAS) { c.push_back((B)((B)(T::BIAS + L) << T::SIG)); c.push_back((B)((B)(T::BIAS - L) << T::SIG)); }
        }
        f128 q = p.first == 'f' ? (f128)bc<double>(L) : p.first == 'g' ? (f128)bc<float>((u32)L) : (f128)L;
        if constexpr (sizeof(B) == 2) c.push_back(bc<u16>((_Float16)q)); else if constexpr (sizeof(B) == 4) c.push_back(bc<u32>((float)q)); else if constexpr (sizeof(B) == 8) c.push_back(bc<u64>((double)q)); else c.push_back(bc<u128>(q));
    }
    uniq(c); size_t want = 80; for (size_t i = 0; i < std::min(want, c.size()); i++) { B x = c[c.size() <= want ? i : i * c.size() / want]; for (int k = -1; k <= 1; k++) for (B s : {(B)0, T::SIGN}) v.push_back((B)((B)(x + (B)(i64)k) ^ s)); }
    uniq(v); return v;
}
template <class B> std::vector<B> special_vals() {
    typedef F<B> T; std::vector<B> v;
    for (B s : {(B)0, T::SIGN}) {
        for (int k = 0; k < 4; k++) { v.push_back((B)(s | (B)k)); v.push_back((B)(s | (T::MAXF - k))); v.push_back((B)(s | (((B)1 << T::SIG) + k))); v.push_back((B)(s | (((B)1 << T::SIG) - 1 - k))); v.push_back((B)(s | (T::ONE + k))); v.push_back((B)(s | (T::ONE - k))); }
        v.push_back((B)(s | T::INF)); v.push_back((B)(s | T::QNAN)); v.push_back((B)(s | T::INF | 1)); v.push_back((B)(s | T::QNAN | 12345)); v.push_back((B)(s | T::ABS));
    }
    static const std::vector<B> nw = new_patterns<B>(); v.insert(v.end(), nw.begin(), nw.end());
    return v;
}
template std::vector<u16> special_vals<u16>(); template std::vector<u32> special_vals<u32>(); template std::vector<u64> special_vals<u64>(); template std::vector<u128> special_vals<u128>();
std::vector<u64> unary_alpha64(int r) {
    std::vector<u64> v; typedef F<u64> T;
    auto both = [&](u64 x, int rr) { add_neigh(v, x, rr); add_neigh(v, (u64)(x ^ T::SIGN), rr); };
    for (u64 x : special_vals<u64>()) v.push_back(x);
    for (u64 x : lit64()) both(x, r);
    for (int k = 0; k <= 2100; k++) { both(bc<u64>((double)k), 3); both(bc<u64>(k + 0.5), 3); }
    for (int e = -1074; e <= 1023; e++) both(bc<u64>(ldexp(1.0, e)), 8);
    uniq(v); return v;
}
std::vector<u32> unary_alpha32(int r) {
    std::vector<u32> v; typedef F<u32> T;
    auto both = [&](u32 x, int rr) { add_neigh(v, x, rr); add_neigh(v, (u32)(x ^ T::SIGN), rr); };
    for (u32 x : special_vals<u32>()) v.push_back(x);
    for (u32 x : lit32()) both(x, r);
    for (int k = 0; k <= 300; k++) { both(bc<u32>((float)k), 3); both(bc<u32>(k + 0.5f), 3); }
    for (int e = -149; e <= 127; e++) both(bc<u32>(ldexpf(1.0f, e)), 8);
    uniq(v); return v;
}
std::vector<u64> file_hex64(const char *path) {
    std::vector<u64> v; FILE *f = fopen(path, "r"); if (!f) { fprintf(stderr, "missing %s\n", path); exit(3); }
    unsigned long long x; while (fscanf(f, "%llx", &x) == 1) v.push_back(x); fclose(f); return v;
}
