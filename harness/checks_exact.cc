// Properties decided on exact integer reference models.
#include "checks.h"
#include "exact.h"
#include "oracle.h"
static bool T_() { return G.thorough; }
template <class B> static void reg(const std::string &op, const char *cfg, const std::string &desc, u64 n) {
    std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += n; if (G.notes.size() < 200) G.notes.push_back(op + "[" + cfg + "]: " + desc + fmt(" = %llu states", (unsigned long long)n));
}
template <class B> static inline bool same(B y, B e) { return y == e || (F<B>::nan(y) && F<B>::nan(e)); }

// unary op against a value model; exact=bitwise (except NaN payload unless nanbits)
template <class B, class M> static void ex_unary(const std::string &op, const Dom<B> &d, const char *cfg, M model, bool nanbits = false) {
    Caller c(op, cfg); reg<B>(op, cfg, d.desc, d.n);
    explore<B>(d, [&](const B *x, size_t n) {
        static thread_local std::vector<B> y; y.resize(CH); if (c.u(n, x, y.data())) return;
        for (size_t i = 0; i < n; i++) { B e = model(x[i]); if (nanbits ? y[i] != e : !same<B>(y[i], e)) { violation(op, cfg, {hex(x[i])}, hex(y[i]), hex(e)); if (too_many()) return; } }
        G.validated += n;
    });
    B s; d.fill(d.n / 3, 1, &s); B o; Caller(op, cfg).u(1, &s, &o); sample(op + "(" + hex(s) + ") = " + hex(o));
}
// all pairs over two alphabets; judge(x, y, result) returns true when acceptable, fills expected
template <class B, class J> static void ex_pairs(const std::string &op, const std::vector<B> &A, const std::vector<B> &Bv, const char *cfg, const std::string &desc, J judge) {
    Caller c(op, cfg); reg<B>(op, cfg, desc + fmt(" (%zu x %zu)", A.size(), Bv.size()), (u64)A.size() * Bv.size());
    parallel(A.size(), [&](u64 i) {
        static thread_local std::vector<B> x, y; x.assign(Bv.size(), A[i]); y.resize(Bv.size());
        if (c.b(Bv.size(), x.data(), Bv.data(), y.data())) return;
        for (size_t j = 0; j < Bv.size(); j++) { B e; if (!judge(A[i], Bv[j], y[j], e)) { violation(op, cfg, {hex(A[i]), hex(Bv[j])}, hex(y[j]), hex(e)); if (too_many()) return; } }
        G.validated += Bv.size();
    });
    if (!too_many()) G.states += (u64)A.size() * Bv.size();
    sample(op + "(" + hex(A[A.size() / 2]) + ", " + hex(Bv[Bv.size() / 3]) + ")");
}
template <class B> static std::vector<B> all_bits() { std::vector<B> v(65536); for (u32 i = 0; i < 65536; i++) v[i] = (B)i; return v; }

// ---- alphabets -------------------------------------------------------------------------------
template <class B> static std::vector<B> lits();
template <> std::vector<u32> lits<u32>() { return lit32(); }
template <> std::vector<u64> lits<u64>() { return lit64(); }
template <> std::vector<u16> lits<u16>() { return {}; }
template <> std::vector<u128> lits<u128>() {
    std::vector<u128> v; for (u64 x : lit64()) { v.push_back((u128)x << 64); double d = bc<double>(x); if (d == d) v.push_back(bc<u128>((f128)d)); } uniq(v); return v;
}
// every exponent (step es), sign, and significand shapes
template <class B> static std::vector<B> shape_alpha(int es, int nsig) {
    typedef F<B> T; std::vector<B> v = special_vals<B>();
    std::vector<B> sig = {0, T::SIGM, 1, (B)((B)1 << (T::SIG - 1)), (B)(T::SIGM / 3), (B)(((B)1 << (T::SIG - 1)) + 1), (B)(T::SIGM - 1), (B)(T::SIGM / 3 * 2), (B)(T::SIGM ^ ((B)1 << (T::SIG - 1))), (B)((B)1 << (T::SIG / 2)), (B)(T::SIGM / 5), (B)(T::SIGM / 7)};
    if ((int)sig.size() > nsig) sig.resize(nsig);
    for (int e = 0; e <= T::EMASK; e += es) for (B s : {(B)0, T::SIGN}) for (B m : sig) v.push_back((B)(s | ((B)e << T::SIG) | m));
    for (int k = 0; k < T::SIG; k++) for (B s : {(B)0, T::SIGN}) { v.push_back((B)(s | ((B)1 << k))); v.push_back((B)(s | (((B)1 << k) - 1))); }
    uniq(v); return v;
}
template <class B> static std::vector<B> thin(const std::vector<B> &v, size_t want) { // even deterministic thinning
    if (v.size() <= want) return v; std::vector<B> r; for (size_t i = 0; i < want; i++) r.push_back(v[(size_t)((u128)i * v.size() / want)]); return r;
}
template <class B> static std::vector<B> cat(std::vector<B> a, const std::vector<B> &b) { a.insert(a.end(), b.begin(), b.end()); uniq(a); return a; }
template <class B> static std::vector<B> ints(int n) {   // small integers, half integers and neighbours
    std::vector<B> v; for (int i = 0; i <= n; i++) for (int h = 0; h < 2; h++) { B x = enc<B>(false, (W)(u64)(2 * i + h), -1); for (int k = -1; k <= 1; k++) { if (x == 0 && k < 0) continue; v.push_back((B)(x + k)); v.push_back((B)((B)(x + k) | F<B>::SIGN)); } } return v;
}
template <class B> static Dom<B> lat(int k, int np) { return dom_lattice<B>(0, F<B>::EMASK, k, low_patterns<B>(np)); }
template <class B> static Dom<B> whitebox(int r) {
    std::vector<B> v; for (B x : lits<B>()) { add_neigh(v, x, r); add_neigh(v, (B)(x ^ F<B>::SIGN), r); }
    for (B x : shape_alpha<B>(1, 6)) add_neigh(v, x, 1); for (B x : ints<B>(600)) v.push_back(x);
    if (!newlits().empty()) for (B x : special_vals<B>()) add_neigh(v, x, sizeof(B) == 16 ? 64 : 1024);
    return dom_vec(std::move(v), "white-box alphabet (source literals, format edges, integers and half-integers, neighbours)");
}
static std::vector<const char *> cfgs() { std::vector<const char *> r; for (auto &p : SHIM_PATHS) r.push_back(p.first.c_str()); return r; }

// ---- C01 sqrt ----------------------------------------------------------------------------------
static u64 hw_sqrt(u64 x) { return bc<u64>(sqrt(bc<double>(x))); }
template <class B> static std::vector<B> sqrt_hard(int k) {   // squares and midpoints between roots, rounded to B, with neighbours
    typedef F<B> T; std::vector<B> v; auto low = low_patterns<B>(6);
    for (u64 top = 0; top < (1ull << k); top++) for (B l : low) for (int h = 0; h < 2; h++) {
        B m = (B)(((B)1 << T::SIG) | ((B)top << (T::SIG - k)) | (B)(l & (B)(((B)1 << (T::SIG - k)) - 1)));
        W r = 2 * (W)m + h; W sq = r * r;
        for (int par = 0; par < 2; par++) for (i64 e : {(i64)(-2 * T::SIG - 2), (i64)(T::EMIN - 3 * T::SIG - 4)}) {
            B x = enc<B>(false, sq, e - (e & 1) + par); for (int d = -2; d <= 2; d++) { B z = (B)(x + d); if (!T::nan(z) && !T::neg(z)) v.push_back(z); }
        }
    }
    return v;
}
// The arguments whose root lies closest to a midpoint r/2 (r odd, SIG+2 bits): r^2 = x*2^k + c with |c| tiny, so r is a 2-adic
// square root of c.  Every c == 1 mod 8 with |c| <= lim, both parities of the exponent, several binades.
template <class B> static std::vector<B> sqrt_near_ties(int lim) {
    typedef F<B> T; const int P = T::SIG + 1; std::vector<B> v; const W one = 1;
    for (int c = -(lim / 8) * 8 + 1; c <= lim; c += 8) for (int k : {P + 1, P + 2}) {
        W mask = (one << k) - 1, cc = c < 0 ? (W)((one << k) - (W)(u64)-c) : (W)(u64)c, s = 1;
        for (int i = 3; i < k; i++) if (((s * s - cc) >> i) & one) s = s + (one << (i - 1));
        for (W r : {s & mask, (W)((W)0 - s) & mask, (s + (one << (k - 1))) & mask, ((W)0 - s + (one << (k - 1))) & mask}) {
            if (k > P + 1) r = r & ((one << (P + 1)) - 1);   // roots modulo 2^k agree modulo 2^(k-1) in pairs
            if (bitlenW(r) != P + 1) continue; W sq = r * r; W x = c < 0 ? sq + (W)(u64)-c : sq - (W)(u64)c; if (x & mask || bitlenW(x >> k) != P) continue;
            for (i64 e : {(i64)(-2 * (P + 1)), (i64)(T::EMIN - 3 * T::SIG - 4), (i64)(T::BIAS / 2 - 2 * P), (i64)0}) { B z = enc<B>(false, x, e - (e & 1)); if (!T::nan(z) && !T::inf(z)) for (int d = -1; d <= 1; d++) if (z + d >= 0) v.push_back((B)(z + d)); } }
    }
    uniq(v); return v;
}
void c_sqrt() {
    for (auto cfg : cfgs()) {
        ex_unary<u16>("sqrtf16", dom_all<u16>(), cfg, [](u16 x) -> u16 {
            typedef F<u16> T; if (T::nan(x) || (T::neg(x) && !T::zero(x))) return T::QNAN; if (T::zero(x) || T::inf(x)) return x;
            Dec<u16> d = dec(x); u64 m = d.m; int e = d.e; if (e & 1) { m <<= 1; e--; } m <<= 30; e -= 30; u64 r = (u64)sqrtl((ld)m); while (r * r > m) r--; while ((r + 1) * (r + 1) <= m) r++; return enc<u16>(false, (W)(2 * r + (r * r != m)), e / 2 - 1); });
        bool full = !strcmp(cfg, "arch") || !strcmp(cfg, "soft");
        auto m32 = [](u32 x) -> u32 { return bc<u32>((float)sqrt((double)bc<float>(x))); };
        ex_unary<u32>("sqrtf", full ? dom_all<u32>() : lat<u32>(14, 4), cfg, m32);
        ex_unary<u64>("sqrt", lat<u64>(T_() ? 16 : 10, 6), cfg, hw_sqrt);
        ex_unary<u64>("sqrt", whitebox<u64>(T_() ? 64 : 12), cfg, hw_sqrt);
        ex_unary<u64>("sqrt", dom_vec(sqrt_near_ties<u64>(T_() ? 1 << 23 : 1 << 19), "the arguments whose roots are closest to midpoints (2-adic square roots)"), cfg, hw_sqrt);
        ex_unary<u64>("sqrt", dom_vec(sqrt_hard<u64>(T_() ? 16 : 13), "squares of and midpoints between consecutive 53-bit roots, +-2 steps"), cfg, hw_sqrt);
        auto q = [&](Dom<u128> d) {
            Caller c("sqrtf128", cfg); reg<u128>("sqrtf128", cfg, d.desc, d.n);
            explore<u128>(d, [&](const u128 *x, size_t n) { static thread_local std::vector<u128> y; y.resize(CH); if (c.u(n, x, y.data())) return;
                for (size_t i = 0; i < n; i++) if (!m_sqrt_ok<u128>(x[i], y[i])) { violation("sqrtf128", cfg, {hex(x[i])}, hex(y[i]), "the correctly rounded root"); if (too_many()) return; } G.validated += n; });
        };
        q(lat<u128>(T_() ? 8 : 3, 4)); q(whitebox<u128>(2)); q(dom_vec(sqrt_hard<u128>(T_() ? 14 : 11), "squares of and midpoints between consecutive 113-bit roots, +-2 steps")); q(dom_vec(sqrt_near_ties<u128>(T_() ? 1 << 16 : 1 << 12), "the arguments whose roots are closest to midpoints (2-adic square roots)"));
    }
}
// ---- C02 fma -----------------------------------------------------------------------------------
template <class B> static B hw_fma(B x, B y, B z);
template <> u32 hw_fma<u32>(u32 x, u32 y, u32 z) { return bc<u32>(fmaf(bc<float>(x), bc<float>(y), bc<float>(z))); }
template <> u64 hw_fma<u64>(u64 x, u64 y, u64 z) { return bc<u64>(fma(bc<double>(x), bc<double>(y), bc<double>(z))); }
template <> u128 hw_fma<u128>(u128 x, u128 y, u128 z) { return m_fma<u128>(x, y, z); }
template <class B> static std::string fname(const char *b) { return std::string(b) + (sizeof(B) == 2 ? "f16" : sizeof(B) == 4 ? "f" : sizeof(B) == 16 ? "f128" : ""); }
template <class B> static void fma_block(const Caller &c, const char *cfg, const std::vector<B> &x, const std::vector<B> &y, const std::vector<B> &z, std::vector<B> &o) {
    size_t n = x.size(); o.resize(n); std::string op = c.op->name;
    if (c.call(n, x.data(), y.data(), z.data(), o.data(), nullptr)) return;
    for (size_t i = 0; i < n; i++) { B e = hw_fma<B>(x[i], y[i], z[i]); if (!same<B>(o[i], e)) { B m = m_fma<B>(x[i], y[i], z[i]); G.adjudicated++; if (!same<B>(o[i], m)) { violation(op, cfg, {hex(x[i]), hex(y[i]), hex(z[i])}, hex(o[i]), hex(m)); if (too_many()) return; } } }
    G.validated += n;
}
template <class B> static void fma_all(const char *cfg, const std::vector<B> &A3, const std::vector<B> &A2, int nz) {
    typedef F<B> T; std::string op = fname<B>("fma"); Caller c(op, cfg);
    u64 n3 = (u64)A3.size() * A3.size() * A3.size(); reg<B>(op, cfg, fmt("all triples over an alphabet of %zu values", A3.size()), n3);
    parallel(A3.size() * A3.size(), [&](u64 i) { static thread_local std::vector<B> x, y, o; x.assign(A3.size(), A3[i / A3.size()]); y.assign(A3.size(), A3[i % A3.size()]); fma_block<B>(c, cfg, x, y, A3, o); });
    if (!too_many()) G.states += n3;
    // structured addends: near-cancellation, halfway, double-rounding and underflow boundaries of the product
    std::atomic<u64> cnt{0};
    parallel(A2.size(), [&](u64 i) {
        static thread_local std::vector<B> x, y, z, o; x.clear(); y.clear(); z.clear(); B a = A2[i]; if (!T::fin(a) || T::zero(a)) return;
        for (B b : A2) {
            if (!T::fin(b) || T::zero(b)) continue; B p = m_fma<B>(a, b, 0); if (!T::fin(p)) p = (B)(T::MAXF | (T::neg(p) ? T::SIGN : (B)0));
            Dec<B> da = dec(a), db = dec(b); W pm = (W)da.m * db.m; i64 pe = (i64)da.e + db.e; bool pn = da.neg != db.neg; int L = bitlenW(pm);
            // exact low part of the product below the rounding position
            B q = T::zero(p) ? (B)0 : p;
            std::vector<B> zs;
            for (int k = -2; k <= 2; k++) { B v = (B)(q + k); if ((B)(v & T::ABS) <= T::MAXF) { zs.push_back((B)(v ^ T::SIGN)); if (k == 0) zs.push_back(v); } }
            // addends placed at every interesting distance from the product's leading bit
            i64 tp = pe + L - 1;
            for (int dist : {T::SIG - 1, T::SIG, T::SIG + 1, T::SIG + 2, 2 * T::SIG, 2 * T::SIG + 1, 2 * T::SIG + 2, 2 * T::SIG + 3, -1, -T::SIG, -T::SIG - 1, -T::SIG - 2, -2 * T::SIG - 1, -2 * T::SIG - 2, -2 * T::SIG - 3, -2 * T::SIG - 4}) for (int s = 0; s < 2; s++) {
                zs.push_back(enc<B>(s != pn, (W)1, tp - dist)); zs.push_back(enc<B>(s != pn, ((W)1 << (T::SIG + 1)) - 1, tp - dist - T::SIG)); }
            for (B s : {(B)0, T::SIGN}) { zs.push_back((B)(s | 1)); zs.push_back((B)(s | ((B)1 << T::SIG))); zs.push_back((B)(s | (T::SIGM))); }
            if ((int)zs.size() > nz) zs.resize(nz);
            for (B v : zs) if (!T::nan(v)) { x.push_back(a); y.push_back(b); z.push_back(v); }
        }
        fma_block<B>(c, cfg, x, y, z, o); cnt += x.size();
    });
    reg<B>(op, cfg, fmt("products of all pairs over %zu values with cancellation/halfway/boundary addends", A2.size()), cnt); G.states += cnt;
    sample(op + "(" + hex(A3[1]) + ", " + hex(A3[A3.size() / 2]) + ", " + hex(A3[A3.size() / 3]) + ")");
}
// Products c*2^k + t with t as small as possible on both sides (all lengths of the run of zeros or ones below the leading bits), met by
// addends at every distance from the product: the states in which one lost sticky bit or a second rounding decides the result.
template <class B> static std::vector<std::pair<B, B>> hard_products(int win, int keep) {
    typedef F<B> T; const int P = T::SIG + 1; std::vector<std::pair<B, B>> o;
    struct C { W t; B a, b; };
    for (int c : {1, 3, 5, 7}) for (int base = 0; base < 4; base++) {
        std::vector<C> up, dn; B m0 = (B)((B)1 << (P - 1)) + (base == 0 ? (B)1 : (B)((((u128)(base == 1 ? 0x9E3779B97F4A7C15ull : base == 2 ? 0x6A09E667F3BCC908ull : 0x2B992DDFA23249D6ull) << 64 | 0xB7E151628AED2A6Bull) >> (128 - (P - 1)))));   // windows at irrational offsets: remainders equidistribute
        for (int i = 0; i < win; i++) {
            B m1 = (B)(m0 + (B)(P > 16 ? i : i % 64)); if (m1 >> P) continue; typedef unsigned _BitInt(256) V; V tgt = (V)c << (2 * P - 4);
            while (tgt < ((V)m1 << (P - 1))) tgt <<= 1; if (tgt >= ((V)m1 << P)) tgt >>= 1;
            W q = (W)(tgt / (V)m1), r = (W)tgt - q * (W)m1; if (q < ((W)1 << (P - 1)) || q + 1 >= ((W)1 << P)) continue;
            if (r == 0) continue; dn.push_back({r, m1, (B)(u128)q}); up.push_back({(W)m1 - r, m1, (B)(u128)(q + 1)});
        }
        for (auto *v : {&up, &dn}) { std::sort(v->begin(), v->end(), [](const C &x, const C &y) { return x.t < y.t; });
            int n = (int)v->size(), last = -1; for (int i = 0; i < n && (int)i < keep; i++) o.push_back({(*v)[i].a, (*v)[i].b});
            for (int i = 0; i < n; i++) { int L = bitlenW((*v)[i].t); if (L != last) { last = L; o.push_back({(*v)[i].a, (*v)[i].b}); } } }
    }
    for (int i = 0; i < P; i++) for (int j : {0, 1, P / 2, P - 2}) { B a = (B)(((B)1 << (P - 1)) | ((B)1 << i) * (B)(i < P - 1)), b = (B)(((B)1 << (P - 1)) | ((B)1 << j) * (B)(j < P - 1)); o.push_back({a, b}); o.push_back({a, (B)((B)(((B)1 << (P - 1)) - 1) | ((B)1 << (P - 1)))}); }
    return o;
}
template <class B> static size_t fma_hard_gen(int win, int keep, int step, const std::function<void(const std::vector<B> &, const std::vector<B> &, const std::vector<B> &)> &sink) {
    typedef F<B> T; const int P = T::SIG + 1; static std::map<std::pair<int, int>, std::vector<std::pair<B, B>>> memo; auto &hp = memo[{win, keep}]; if (hp.empty()) hp = hard_products<B>(win, keep);
    auto mk = [](B m, int e) -> B { return (B)(((B)(e + T::BIAS) << T::SIG) | (B)(m & T::SIGM)); };   // m in [2^SIG, 2^(SIG+1)), value m*2^(e-SIG)
    parallel(hp.size(), [&](u64 h) {
        static thread_local std::vector<B> x, y, z; x.clear(); y.clear(); z.clear(); B a = hp[h].first, b = hp[h].second; W pm = (W)a * b; int L = bitlenW(pm);
        auto put = [&](int ex, int ey, B zz) { for (int s = 0; s < 4; s++) { x.push_back((B)(mk(a, ex) | (s & 1 ? T::SIGN : (B)0))); y.push_back(mk(b, ey)); z.push_back((B)(zz | (s & 2 ? T::SIGN : (B)0))); } };
        std::vector<B> zm; for (B f : {(B)0, (B)1, (B)2, (B)T::SIGM, (B)(T::SIGM - 1), (B)((B)1 << (T::SIG - 1))}) zm.push_back(f);
        // in range: every distance between the leading bits
        for (int d = -2 * P - 4; d <= 2 * P + 4; d++) for (B f : zm) { int ez = 7 + d; if (ez < T::EMIN || ez > T::BIAS) continue; int top = (L - 1) - 2 * T::SIG; put(3, 4 - top, (B)(((B)(ez + T::BIAS) << T::SIG) | f)); }
        // results around the bottom of the normal range and inside the subnormals
        for (int tp = T::EMIN - P - 3; tp <= T::EMIN + 2; tp += (tp > T::EMIN - 3 || tp < T::EMIN - P + 2) ? 1 : step) { int top = (L - 1) - 2 * T::SIG, ex = T::EMIN / 2, ey = tp - top - ex; if (ey < T::EMIN || ey > T::BIAS) continue;
            for (B zz : {(B)0, (B)1, (B)2, (B)3, (B)((B)1 << (T::SIG - 1)), (B)T::SIGM, (B)(T::SIGM + 1), (B)(T::SIGM + 2), (B)((B)2 << T::SIG), (B)(((B)2 << T::SIG) - 1)}) put(ex, ey, zz);
            for (int d = 1; d < P; d += step) put(ex, ey, (B)((B)1 << d)); }
        // results around the overflow threshold
        for (int tp = T::BIAS - 2; tp <= T::BIAS; tp++) { int top = (L - 1) - 2 * T::SIG, ex = T::BIAS / 2, ey = tp - top - ex; if (ey < T::EMIN || ey > T::BIAS) continue;
            for (B zz : {(B)T::MAXF, (B)(T::MAXF - 1), (B)(T::MAXF & ~T::SIGM), (B)((T::MAXF & ~T::SIGM) - 1), (B)((B)(T::BIAS - P + T::BIAS) << T::SIG), (B)((B)(T::BIAS - 2 * P + T::BIAS) << T::SIG), (B)1}) put(ex, ey, zz); }
        sink(x, y, z);
    });
    return hp.size();
}
template <class B> static void fma_hard(const char *cfg, int win, int keep, int step) {
    std::string op = fname<B>("fma"); Caller c(op, cfg); std::atomic<u64> cnt{0};
    size_t np = fma_hard_gen<B>(win, keep, step, [&](const std::vector<B> &x, const std::vector<B> &y, const std::vector<B> &z) { static thread_local std::vector<B> o; fma_block<B>(c, cfg, x, y, z, o); cnt += x.size(); });
    reg<B>(op, cfg, fmt("%zu products closest to c*2^k on both sides x addends at every distance, subnormal and overflow placements", np), cnt); G.states += cnt;
}
void c_fma() {
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch"); int t = T_() ? 2 : 1;
        auto sub = [&](auto tag, size_t n3, size_t n2, int nz) { typedef decltype(tag) B; auto s = shape_alpha<B>(sizeof(B) == 16 ? 97 : sizeof(B) == 8 ? 13 : 2, 8); auto A3 = cat(special_vals<B>(), thin(s, n3)); auto A2 = cat(cat(thin(s, n2), special_vals<B>()), thin(lits<B>(), n2 / 2)); fma_all<B>(cfg, A3, A2, nz); };
        sub((u32)0, (main ? 420 : 160) * t, (main ? 900 : 300) * t, 80); sub((u64)0, (main ? 420 : 160) * t, (main ? 900 : 300) * t, 80); sub((u128)0, (main ? 110 : 60) * t, (main ? 160 : 60) * t, 80);
        fma_hard<u32>(cfg, main ? 4096 * t : 512, main ? 12 * t : 2, T_() ? 1 : 3); fma_hard<u64>(cfg, main ? 16384 * t : 8192, main ? 12 * t : 2, T_() ? 1 : 5); fma_hard<u128>(cfg, 65536, main ? 4 * t : 1, T_() ? 4 : 16);
    }
}
// ---- C03 rounding to integral ---------------------------------------------------------------------
template <class B> static void round_family(const char *cfg, const Dom<B> &d) {
    ex_unary<B>(fname<B>("ceil"), d, cfg, [](B x) { return m_round<B>(x, R_CEIL); }); ex_unary<B>(fname<B>("floor"), d, cfg, [](B x) { return m_round<B>(x, R_FLOOR); });
    ex_unary<B>(fname<B>("trunc"), d, cfg, [](B x) { return m_round<B>(x, R_TRUNC); }); ex_unary<B>(fname<B>("round"), d, cfg, [](B x) { return m_round<B>(x, R_ROUND); });
    ex_unary<B>(fname<B>("roundeven"), d, cfg, [](B x) { return m_round<B>(x, R_EVEN); }); ex_unary<B>(fname<B>("rint"), d, cfg, [](B x) { return m_round<B>(x, R_EVEN); });
}
template <class B> static Dom<B> lat_e(int e0, int e1, int k, int np) { return dom_lattice<B>(e0, e1, k, low_patterns<B>(np)); }
template <class B> static Dom<B> int_edges(int k) {   // for every exponent with a fractional part: integer part patterns x fraction in {0, tiny, just below/at/above one half, all ones}
    typedef F<B> T; std::vector<B> v;
    for (int e = -3; e <= T::SIG + 1; e++) for (B s : {(B)0, T::SIGN}) {
        int fb = e < 0 ? T::SIG : T::SIG - e; if (fb < 0) fb = 0; B fm = fb ? (B)(((B)1 << fb) - 1) : (B)0; B half = fb ? (B)((B)1 << (fb - 1)) : (B)0;
        std::vector<B> fr = {0, 1, fm, half, (B)((half - 1) & fm), (B)((half + 1) & fm), (B)(fm - 1), (B)(half >> 1), (B)((half | (half >> 1)) & fm)};
        int ib = T::SIG - fb; int kk = ib < k ? ib : k;
        for (u64 t = 0; t < (1ull << kk); t++) for (B low : {(B)0, (B)~(B)0, (B)1, (B)2, (B)3}) { B ip = ib ? (B)((((B)t << (ib - kk)) | (B)(low & (B)(((B)1 << (ib - kk)) - 1))) << fb) : (B)0; for (B f : fr) v.push_back((B)(s | ((B)(e + T::BIAS) << T::SIG) | ip | (B)(f & fm))); }
    }
    return dom_vec(std::move(v), "every exponent with a fraction x integer-part patterns x fraction edges");
}
void c_round() {
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch");
        round_family<u16>(cfg, dom_all<u16>()); round_family<u32>(cfg, main ? dom_all<u32>() : lat<u32>(12, 4));
        round_family<u64>(cfg, lat<u64>(T_() ? 12 : 7, 6)); round_family<u64>(cfg, int_edges<u64>(T_() ? 14 : 9)); round_family<u64>(cfg, whitebox<u64>(T_() ? 32 : 4));
        round_family<u128>(cfg, lat<u128>(T_() ? 6 : 2, 4)); round_family<u128>(cfg, int_edges<u128>(T_() ? 12 : 8)); round_family<u128>(cfg, whitebox<u128>(T_() ? 16 : 2));
    }
}
// ---- C04 fmod, remainder, remquo -------------------------------------------------------------------
template <class B> static std::vector<B> rem_alpha(int es, int ns, size_t nl) { return cat(cat(shape_alpha<B>(es, ns), thin(lits<B>(), nl)), ints<B>(12)); }
template <class B> static void fmod_pairs(const char *cfg, const std::vector<B> &A, const std::vector<B> &Bv, const std::string &d) {
    ex_pairs<B>(fname<B>("fmod"), A, Bv, cfg, d, [](B x, B y, B r, B &e) { e = m_fmod<B>(x, y); return same<B>(r, e); });
}
static inline u16 fmod16(u16 x, u16 y) {   // same exact definition on machine integers: every finite binary16 is an integer multiple of 2^-24
    typedef F<u16> T; if (T::nan(x) || T::nan(y) || T::inf(x) || T::zero(y)) return T::QNAN; if (T::inf(y)) return x;
    auto mag = [](u16 v) -> u64 { int e = (v >> 10) & 31; u64 m = v & 1023; return e ? (m | 1024) << (e - 1) : m; };
    u64 a = mag(x) % mag(y); u16 s = x & 0x8000; if (a < 1024) return s | (u16)a; int L = 64 - __builtin_clzll(a); int sh = L - 11; return s | (u16)(((sh + 1) << 10) + ((a >> sh) & 1023));
}
template <class B> static void remq(const char *cfg, const std::vector<B> &A, const std::vector<B> &Bv, const std::string &desc) {
    std::string rn = fname<B>("remainder"), qn = fname<B>("remquo"); Caller cr(rn, cfg), cq(qn, cfg);
    reg<B>(rn, cfg, desc, (u64)A.size() * Bv.size()); reg<B>(qn, cfg, desc, (u64)A.size() * Bv.size());
    parallel(A.size(), [&](u64 i) {
        static thread_local std::vector<B> x, y, y2; static thread_local std::vector<i32> q; size_t n = Bv.size(); x.assign(n, A[i]); y.resize(n); y2.resize(n); q.resize(n);
        if (cr.b(n, x.data(), Bv.data(), y.data()) || cq.call(n, x.data(), Bv.data(), nullptr, y2.data(), q.data())) return;
        for (size_t j = 0; j < n; j++) {
            u32 m; bool neg; B e = m_remquo<B>(A[i], Bv[j], &m, &neg);
            if (!same<B>(y[j], e)) violation(rn, cfg, {hex(A[i]), hex(Bv[j])}, hex(y[j]), hex(e));
            if (!same<B>(y2[j], e)) violation(qn, cfg, {hex(A[i]), hex(Bv[j])}, hex(y2[j]), hex(e));
            else if (!F<B>::nan(e)) { i32 eq = neg ? -(i32)m : (i32)m; if (q[j] != eq) violation(qn, cfg, {hex(A[i]), hex(Bv[j])}, fmt("quotient %d", q[j]), fmt("quotient %d", eq)); }
            if (too_many()) return;
        }
        G.validated += 2 * n;
    });
    if (!too_many()) G.states += 2 * (u64)A.size() * Bv.size();
    sample(qn + "(" + hex(A[A.size() / 2]) + ", " + hex(Bv[Bv.size() / 3]) + ")");
}
template <class B> static std::vector<std::pair<B, B>> near_multiples(const std::vector<B> &Y, int nk) { // x = round(k*y) or (k+1/2)*y, +-1 step
    typedef F<B> T; std::vector<std::pair<B, B>> r;
    for (B y : Y) { if (!T::fin(y) || T::zero(y)) continue; Dec<B> d = dec(y);
        for (int k = 1; k <= nk; k++) for (int sh : {0, 1, T::SIG - 2, T::SIG, T::SIG + 1, 31, 32, 60}) { W m = (W)d.m * (u64)k; B x = enc<B>(false, m, d.e - 1 + sh); for (int s = -1; s <= 1; s++) { B z = (B)(x + s); if (T::fin(z) && !T::neg(z)) { r.push_back({z, y}); r.push_back({(B)(z | T::SIGN), y}); } } } }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r;
}
template <class B> static std::vector<B> edge_divisors() {   // the divisors at the ends of the format: every subnormal power of two and run of ones, shapes in the first, middle and last binades
    typedef F<B> T; std::vector<B> v, sig = {0, 1, 2, (B)((B)1 << (T::SIG - 1)), (B)(T::SIGM - 1), T::SIGM, (B)(T::SIGM / 3), (B)(T::SIGM / 3 * 2), (B)((B)3 << (T::SIG - 2)), (B)((B)1 << (T::SIG / 2))};
    for (int e : {0, 1, 2, 3, 4, T::SIG, T::SIG + 1, T::BIAS - 1, T::BIAS, T::BIAS + 1, T::EMASK - T::SIG - 1, T::EMASK - 2, T::EMASK - 1}) for (B m : sig) if (e || m) v.push_back((B)(((B)e << T::SIG) | m));
    for (int k = 0; k < T::SIG; k++) { v.push_back((B)1 << k); v.push_back((B)(((B)2 << k) - 1)); v.push_back((B)((B)3 << k)); } uniq(v); return v;
}
template <class B> static void rem_near(const char *cfg, const std::vector<B> &Y, int nk, bool rq) {
    auto p = near_multiples<B>(Y, nk); std::vector<B> X, Z; for (auto &q : p) { X.push_back(q.first); Z.push_back(q.second); }
    std::string fn = fname<B>("fmod"), rn = fname<B>("remainder"), qn = fname<B>("remquo"); Caller cf(fn, cfg);
    u64 n = X.size(); reg<B>(fn, cfg, "x within 1 step of an exact (half-)multiple k*y*2^s", n); if (rq) { reg<B>(rn, cfg, "same", n); reg<B>(qn, cfg, "same", n); }
    parallel((n + CH - 1) / CH, [&](u64 c) {
        size_t o = c * CH, m = std::min<size_t>(CH, n - o); std::vector<B> y(m); std::vector<i32> q(m);
        if (!cf.b(m, &X[o], &Z[o], y.data())) for (size_t i = 0; i < m; i++) { B e = m_fmod<B>(X[o + i], Z[o + i]); if (!same<B>(y[i], e)) violation(fn, cfg, {hex(X[o + i]), hex(Z[o + i])}, hex(y[i]), hex(e)); }
        G.validated += m; if (!rq) return;
        Caller cr(rn, cfg), cq(qn, cfg); std::vector<B> y2(m);
        if (cr.b(m, &X[o], &Z[o], y.data()) || cq.call(m, &X[o], &Z[o], nullptr, y2.data(), q.data())) return;
        for (size_t i = 0; i < m; i++) { u32 k; bool ng; B e = m_remquo<B>(X[o + i], Z[o + i], &k, &ng);
            if (!same<B>(y[i], e)) violation(rn, cfg, {hex(X[o + i]), hex(Z[o + i])}, hex(y[i]), hex(e));
            if (!same<B>(y2[i], e) || (!F<B>::nan(e) && q[i] != (ng ? -(i32)k : (i32)k))) violation(qn, cfg, {hex(X[o + i]), hex(Z[o + i])}, hex(y2[i]) + fmt(",%d", q[i]), hex(e) + fmt(",%d", ng ? -(i32)k : (i32)k)); }
        G.validated += 2 * m;
    });
    if (!too_many()) G.states += n * (rq ? 3 : 1);
}
void c_rem() {
    auto all16 = all_bits<u16>();
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch"); int t = T_() ? 2 : 1;
        if (main) ex_pairs<u16>("fmodf16", all16, all16, cfg, "every pair of binary16 values", [](u16 x, u16 y, u16 r, u16 &e) { e = fmod16(x, y); return same<u16>(r, e); });
        auto a16 = shape_alpha<u16>(1, 12); fmod_pairs<u16>(cfg, a16, a16, "all pairs over the shape alphabet");
        auto A32 = rem_alpha<u32>(main ? (T_() ? 1 : 3) : 9, 8, 300 * t); fmod_pairs<u32>(cfg, A32, A32, "all pairs"); remq<u32>(cfg, A32, A32, "all pairs");
        auto A64 = rem_alpha<u64>(main ? (T_() ? 23 : 61) : 211, 8, 300 * t); fmod_pairs<u64>(cfg, A64, A64, "all pairs"); remq<u64>(cfg, A64, A64, "all pairs");
        auto A128 = rem_alpha<u128>(main ? 1531 : 4001, 6, main ? 60 * t : 10); fmod_pairs<u128>(cfg, A128, A128, "all pairs");
        rem_near<u32>(cfg, cat(thin(shape_alpha<u32>(1, 12), main ? 1500 : 300), edge_divisors<u32>()), 24, true); rem_near<u64>(cfg, cat(thin(shape_alpha<u64>(1, 12), main ? 1500 * t : 300), edge_divisors<u64>()), 24, true); rem_near<u128>(cfg, cat(thin(shape_alpha<u128>(31, 8), main ? 200 * t : 40), thin(edge_divisors<u128>(), main ? 500 : 60)), 8, false);
    }
}
// ---- C05 min / max ---------------------------------------------------------------------------------
enum MM { FMIN, FMAX, FMINIMUM, FMAXIMUM, FMINIMUM_NUM, FMAXIMUM_NUM };
template <class B> static inline bool mm_ok(MM k, B x, B y, B r, B &e) {
    typedef F<B> T; bool xn = T::nan(x), yn = T::nan(y), mx = k & 1, num = k == FMINIMUM_NUM || k == FMAXIMUM_NUM, leg = k == FMIN || k == FMAX;
    if (xn || yn) { if (leg || num) { if (xn && yn) { e = T::QNAN; return T::nan(r); } e = xn ? y : x; return r == e; } e = T::QNAN; return T::nan(r); }
    if (T::zero(x) && T::zero(y)) { if (leg) { e = x; return r == x || r == y; } bool anyneg = T::neg(x) || T::neg(y), allneg = T::neg(x) && T::neg(y); e = (mx ? allneg : anyneg) ? T::SIGN : (B)0; return r == e; }
    // order by sign-magnitude bits
    bool lt; if (T::neg(x) != T::neg(y)) lt = T::neg(x); else lt = T::neg(x) ? (B)(x & T::ABS) > (B)(y & T::ABS) : x < y;
    e = (lt != mx) ? x : y; return r == e;
}
static const char *MMN[] = {"fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num"};
template <class B> static void mm_all(const char *cfg, const std::vector<B> &A, const std::vector<B> &Bv, const std::string &d, unsigned mask = 63) {
    for (int k = 0; k < 6; k++) if (mask >> k & 1) ex_pairs<B>(fname<B>(MMN[k]), A, Bv, cfg, d, [k](B x, B y, B r, B &e) { return mm_ok<B>((MM)k, x, y, r, e); });
}
template <class B> static std::vector<B> cmp_alpha(int es, int ns, size_t nl) {
    auto v = cat(shape_alpha<B>(es, ns), thin(lits<B>(), nl)); std::vector<B> w; for (B x : thin(v, v.size() / 3)) { w.push_back(x); w.push_back((B)(x + 1)); w.push_back((B)(x ^ F<B>::SIGN)); w.push_back((B)(x - 1)); } return cat(v, w);
}
void c_minmax() {
    auto all16 = all_bits<u16>();
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch");
        if (main) mm_all<u16>(cfg, T_() ? all16 : thin(all16, 16384), all16, T_() ? "every pair of binary16 values" : "every second operand for a quarter of the first operands");
        auto A16 = cmp_alpha<u16>(1, 12, 0); mm_all<u16>(cfg, A16, A16, "all pairs over the shape alphabet");
        auto A32 = cmp_alpha<u32>(main ? 3 : 17, 8, 400); if (T_()) A32 = cmp_alpha<u32>(1, 12, 2000); mm_all<u32>(cfg, A32, A32, "all pairs");
        auto A64 = cmp_alpha<u64>(main ? 37 : 211, 8, 400); if (T_()) A64 = cmp_alpha<u64>(7, 12, 2000); mm_all<u64>(cfg, A64, A64, "all pairs");
        auto A128 = cmp_alpha<u128>(main ? 701 : 2003, 6, 200); mm_all<u128>(cfg, A128, A128, "all pairs");
    }
}
// ---- C06 fabs, copysign (bit-exact, NaN payloads included) ----------------------------------------------
template <class B> static void cs_pairs(const char *cfg, const std::vector<B> &A, const std::vector<B> &Bv, const std::string &d) {
    ex_pairs<B>(fname<B>("copysign"), A, Bv, cfg, d, [](B x, B y, B r, B &e) { e = (B)((x & F<B>::ABS) | (y & F<B>::SIGN)); return r == e; });
}
template <class B> static void abs_u(const char *cfg, const Dom<B> &d) { ex_unary<B>(fname<B>("fabs"), d, cfg, [](B x) { return (B)(x & F<B>::ABS); }, true); }
void c_sign() {
    auto all16 = all_bits<u16>();
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch");
        abs_u<u16>(cfg, dom_all<u16>()); abs_u<u32>(cfg, dom_all<u32>()); abs_u<u64>(cfg, lat<u64>(T_() ? 14 : 9, 6)); abs_u<u64>(cfg, whitebox<u64>(16)); abs_u<u128>(cfg, lat<u128>(T_() ? 8 : 4, 4)); abs_u<u128>(cfg, whitebox<u128>(4));
        if (main) cs_pairs<u16>(cfg, T_() ? all16 : all16, T_() ? all16 : thin(all16, 8192), "every magnitude operand x sign operands");
        auto A16 = cmp_alpha<u16>(1, 12, 0); cs_pairs<u16>(cfg, A16, A16, "all pairs");
        auto A32 = cmp_alpha<u32>(3, 8, 400); cs_pairs<u32>(cfg, A32, A32, "all pairs"); auto A64 = cmp_alpha<u64>(37, 8, 400); cs_pairs<u64>(cfg, A64, A64, "all pairs"); auto A128 = cmp_alpha<u128>(701, 6, 200); cs_pairs<u128>(cfg, A128, A128, "all pairs");
    }
}
// ---- C07 fdim --------------------------------------------------------------------------------------------
template <class B> static inline B m_fdim(B x, B y) {
    typedef F<B> T; if (T::nan(x) || T::nan(y)) return T::QNAN; if (T::ord(x) <= T::ord(y)) return 0;
    if (T::inf(x) || T::inf(y)) return T::INF; return m_sub<B>(x, y);
}
static inline u32 fdim32(u32 x, u32 y) { float a = bc<float>(x), b = bc<float>(y); if (a != a || b != b) return F<u32>::QNAN; if (!(a > b)) return 0; return bc<u32>((float)((double)a - (double)b)); }
static inline u64 fdim64(u64 x, u64 y) { double a = bc<double>(x), b = bc<double>(y); if (a != a || b != b) return F<u64>::QNAN; if (!(a > b)) return 0; return bc<u64>(a - b); }
static inline u16 fdim16(u16 x, u16 y) {
    typedef F<u16> T; if (T::nan(x) || T::nan(y)) return T::QNAN; auto mag = [](u16 v) -> i64 { int e = (v >> 10) & 31; i64 m = v & 1023; m = e ? (m | 1024) << (e - 1) : m; return v & 0x8000 ? -m : m; };
    bool xi = T::inf(x), yi = T::inf(y); if (xi || yi) { if (xi && !T::neg(x) && !(yi && !T::neg(y))) return T::INF; if (yi && T::neg(y) && !(xi && T::neg(x))) return T::INF; return 0; }
    i64 a = mag(x) - mag(y); if (a <= 0) return 0; if (a < 2048) return (u16)a; int L = 64 - __builtin_clzll(a), sh = L - 11; i64 q = a >> sh, rem = a & ((1ll << sh) - 1), half = 1ll << (sh - 1); if (rem > half || (rem == half && (q & 1))) q++; i64 f = ((i64)sh << 10) + q; return f >= 0x7c00 ? 0x7c00 : (u16)f;
}
void c_fdim() {
    auto all16 = all_bits<u16>();
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch"); int t = T_() ? 3 : 1;
        if (main) ex_pairs<u16>("fdimf16", all16, all16, cfg, "every pair of binary16 values", [](u16 x, u16 y, u16 r, u16 &e) { e = fdim16(x, y); return same<u16>(r, e); });
        auto j32 = [](u32 x, u32 y, u32 r, u32 &e) { e = fdim32(x, y); if (same<u32>(r, e)) return true; e = m_fdim<u32>(x, y); return same<u32>(r, e); };
        auto j64 = [](u64 x, u64 y, u64 r, u64 &e) { e = fdim64(x, y); if (same<u64>(r, e)) return true; e = m_fdim<u64>(x, y); return same<u64>(r, e); };
        auto A16 = cmp_alpha<u16>(1, 12, 0); ex_pairs<u16>("fdimf16", A16, A16, cfg, "all pairs", [](u16 x, u16 y, u16 r, u16 &e) { e = m_fdim<u16>(x, y); return same<u16>(r, e); });
        auto A32 = cmp_alpha<u32>(main ? 1 : 9, 10, 500 * t); ex_pairs<u32>("fdimf", A32, A32, cfg, "all pairs", j32);
        auto A64 = cmp_alpha<u64>(main ? 11 / (T_() ? 2 : 1) : 97, 8, 500 * t); ex_pairs<u64>("fdim", A64, A64, cfg, "all pairs", j64);
        auto A128 = cmp_alpha<u128>(main ? 701 : 2003, 6, 100 * t); ex_pairs<u128>("fdimf128", A128, A128, cfg, "all pairs", [](u128 x, u128 y, u128 r, u128 &e) { e = m_fdim<u128>(x, y); return same<u128>(r, e); });
        // close operands: cancellation at every exponent
        auto near = [&](auto tag, const char *op, auto judge, int es) { typedef decltype(tag) B; Caller c(op, cfg); std::vector<B> X, Y; auto S = shape_alpha<B>(es, 12); for (B x : S) for (int k = -40; k <= 40; k++) { X.push_back(x); Y.push_back((B)(x + k)); }
            reg<B>(op, cfg, "operands at most 40 steps apart, every exponent", X.size()); parallel((X.size() + CH - 1) / CH, [&](u64 ch) { size_t o = ch * CH, m = std::min<size_t>(CH, X.size() - o); std::vector<B> r(m); if (c.b(m, &X[o], &Y[o], r.data())) return; for (size_t i = 0; i < m; i++) { B e; if (!judge(X[o + i], Y[o + i], r[i], e)) violation(op, cfg, {hex(X[o + i]), hex(Y[o + i])}, hex(r[i]), hex(e)); } G.validated += m; }); G.states += X.size(); };
        near((u32)0, "fdimf", j32, 1); near((u64)0, "fdim", j64, 1); near((u128)0, "fdimf128", [](u128 x, u128 y, u128 r, u128 &e) { e = m_fdim<u128>(x, y); return same<u128>(r, e); }, 61);
    }
}
// ---- C08 scaling and decomposition -------------------------------------------------------------------------
template <class B> static void scal(const char *cfg, const std::vector<B> &A, const std::vector<i32> &N, const std::string &d) {
    for (const char *b : {"scalbn", "ldexp"}) { std::string op = fname<B>(b); Caller c(op, cfg); reg<B>(op, cfg, d + fmt(" (%zu values x %zu exponents)", A.size(), N.size()), (u64)A.size() * N.size());
        parallel(A.size(), [&](u64 i) { static thread_local std::vector<B> x, y; x.assign(N.size(), A[i]); y.resize(N.size()); if (c.b(N.size(), x.data(), N.data(), y.data())) return;
            for (size_t j = 0; j < N.size(); j++) { B e = m_scalbn<B>(A[i], N[j]); if (!same<B>(y[j], e)) { violation(op, cfg, {hex(A[i]), fmt("%d", N[j])}, hex(y[j]), hex(e)); if (too_many()) return; } } G.validated += N.size(); });
        if (!too_many()) G.states += (u64)A.size() * N.size(); sample(op + "(" + hex(A[A.size() / 2]) + ", " + fmt("%d", N[N.size() / 3]) + ")"); }
}
static std::vector<i32> nrange(i64 lo, i64 hi, int step = 1) { std::vector<i32> v; for (i64 n = lo; n <= hi; n += step) v.push_back((i32)n); for (int k = 0; k < 31; k++) for (int d = -2; d <= 2; d++) { v.push_back((i32)((1u << k) + d)); v.push_back((i32)(-(i64)(1u << k) + d)); } for (i64 k : {INT32_MIN, INT32_MAX}) for (int d = 0; d < 40; d++) v.push_back((i32)(k < 0 ? k + d : k - d)); for (i32 x : new_ints()) v.push_back(x); uniq(v); std::sort(v.begin(), v.end(), [](i32 a, i32 b) { return llabs((i64)a) < llabs((i64)b); }); return v; }
template <class B> static void decomp(const char *cfg, const Dom<B> &d) {
    typedef F<B> T; std::string fx = fname<B>("frexp"), md = fname<B>("modf"), il = fname<B>("ilogb"); Caller cf(fx, cfg), cm(md, cfg), ci(il, cfg); reg<B>(fx, cfg, d.desc, d.n); reg<B>(md, cfg, d.desc, d.n); reg<B>(il, cfg, d.desc, d.n);
    explore<B>(d, [&](const B *x, size_t n) {
        static thread_local std::vector<B> a, b; static thread_local std::vector<i32> k; a.resize(CH); b.resize(CH); k.resize(CH);
        if (!cf.call(n, x, nullptr, nullptr, a.data(), k.data())) for (size_t i = 0; i < n; i++) {
            B v = x[i]; bool ok;
            if (T::nan(v)) ok = T::nan(a[i]); else if (T::inf(v)) ok = a[i] == v; else if (T::zero(v)) ok = a[i] == v && k[i] == 0;
            else { int e = T::ex(v); B m; int ee; if (e) { m = (B)(v & T::SIGM); ee = e - T::BIAS + 1; } else { int L = bitlen((B)(v & T::SIGM)); m = (B)((B)((v & T::SIGM) << (T::SIG + 1 - L)) & T::SIGM); ee = L + T::EMIN - T::SIG; }
                ok = k[i] == ee && a[i] == (B)((v & T::SIGN) | ((B)(T::BIAS - 1) << T::SIG) | m); }
            if (!ok) { violation(fx, cfg, {hex(v)}, hex(a[i]) + fmt(",%d", k[i]), "m in [0.5,1) and e with x = m*2^e"); if (too_many()) return; } }
        if (!ci.call(n, x, nullptr, nullptr, k.data(), nullptr)) for (size_t i = 0; i < n; i++) {
            B v = x[i]; i32 e; if (T::nan(v) || T::zero(v)) e = INT32_MIN; else if (T::inf(v)) e = INT32_MAX; else { int ex = T::ex(v); e = ex ? ex - T::BIAS : bitlen((B)(v & T::SIGM)) - 1 + T::EMIN - T::SIG; }
            if (k[i] != e) { violation(il, cfg, {hex(v)}, fmt("%d", k[i]), fmt("%d", e)); if (too_many()) return; } }
        if (!cm.call(n, x, nullptr, nullptr, a.data(), b.data())) for (size_t i = 0; i < n; i++) {
            B v = x[i]; bool ok; if (T::nan(v)) ok = T::nan(a[i]) && T::nan(b[i]); else { B ip = m_round<B>(v, R_TRUNC), fr;
                if (T::inf(v)) fr = (B)(v & T::SIGN); else { Dec<B> dv = dec(v), di = dec(ip); if (T::zero(ip)) fr = v; else { int sh = -dv.e; B f = sh <= 0 ? (B)0 : sh > T::SIG ? (B)0 : (B)(dv.m & (B)(((B)1 << sh) - 1)); (void)di; if (!f) fr = (B)(v & T::SIGN); else { int L = bitlen(f); i64 top = dv.e + L - 1; fr = (B)((v & T::SIGN) | ((B)(top + T::BIAS) << T::SIG) | (B)((B)(f << (T::SIG + 1 - L)) & T::SIGM)); } } }
                ok = a[i] == fr && b[i] == ip; }
            if (!ok) { violation(md, cfg, {hex(v)}, hex(a[i]) + "," + hex(b[i]), "exact fractional and integral parts with the sign of x"); if (too_many()) return; } }
        G.validated += 3 * n;
    });
    G.states += 2 * d.n; B s; d.fill(d.n / 3, 1, &s); sample("frexp/modf/ilogb(" + hex(s) + ")");
}
void c_scale() {
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch");
        scal<u16>(cfg, all_bits<u16>(), nrange(-70, 70), "every binary16 value"); 
        auto a32 = cat(shape_alpha<u32>(main ? 1 : 5, 12), thin(lits<u32>(), main ? 1000 : 100)); scal<u32>(cfg, a32, nrange(-420, 420), "shape alphabet"); 
        auto a64 = cat(shape_alpha<u64>(main ? (T_() ? 3 : 17) : 97, 10), thin(lits<u64>(), main ? 400 : 40)); scal<u64>(cfg, a64, nrange(-3300, 3300), "shape alphabet");
        auto a128 = cat(thin(shape_alpha<u128>(523, 8), main ? (T_() ? 2000 : 260) : 60), special_vals<u128>()); scal<u128>(cfg, a128, nrange(-50000, 50000, main ? (T_() ? 1 : 7) : 41), "shape alphabet");
        // rounding boundaries: results that land in the subnormal range, for every number of discarded bits
        { std::vector<u64> v; for (int k = 0; k < 53; k++) for (int j = 0; j < 53; j += 3) { u64 m = (1ull << k) | (1ull << j); add_neigh<u64>(v, 0x3ff0000000000000ull | (m & F<u64>::SIGM), 1); add_neigh<u64>(v, 0x0010000000000000ull | (m & F<u64>::SIGM), 1); } uniq(v); scal<u64>(cfg, v, nrange(-1140, -960), "two-bit significands scaled across the subnormal boundary"); scal<u64>(cfg, v, nrange(-2200, -2040), "two-bit significands, far scaling"); }
        { std::vector<u32> v; for (int k = 0; k < 24; k++) for (int j = 0; j < 24; j++) { u32 m = (1u << k) | (1u << j); add_neigh<u32>(v, 0x3f800000u | (m & F<u32>::SIGM), 1); add_neigh<u32>(v, 0x7f000000u | (m & F<u32>::SIGM), 1); } uniq(v); scal<u32>(cfg, v, nrange(-300, -100), "two-bit significands scaled across the subnormal boundary"); }
        decomp<u32>(cfg, main ? dom_all<u32>() : lat<u32>(12, 4)); decomp<u64>(cfg, lat<u64>(T_() ? 13 : 9, 6)); decomp<u64>(cfg, int_edges<u64>(T_() ? 12 : 8)); decomp<u64>(cfg, whitebox<u64>(T_() ? 32 : 6));
        { std::vector<u64> v; for (int k = 0; k < 52; k++) for (int j = 0; j < 52; j++) for (u64 s : {(u64)0, F<u64>::SIGN}) { add_neigh<u64>(v, s | (1ull << k) | (1ull << j), 2); } decomp<u64>(cfg, dom_vec(v, "subnormals with at most two bits, neighbours")); }
    }
}
// ---- C09 nextafter -----------------------------------------------------------------------------------------
template <class B> static inline B m_next(B x, B y) {
    typedef F<B> T; if (T::nan(x) || T::nan(y)) return T::QNAN; i128 a = T::ord(x), b = T::ord(y); if (a == b) return y;
    i128 r = b > a ? a + 1 : a - 1; if (r == 0) return T::neg(x) ? T::SIGN : (B)0; return r < 0 ? (B)((B)-r | T::SIGN) : (B)r;
}
template <class B> static void next_u(const char *cfg, const Dom<B> &d) {
    typedef F<B> T; std::string op = fname<B>("nextafter"); Caller c(op, cfg);
    for (B y : {T::INF, (B)(T::INF | T::SIGN), (B)0, T::SIGN, T::ONE, (B)1, (B)(T::SIGN | T::MAXF), T::QNAN}) { reg<B>(op, cfg, d.desc + " toward " + hex(y), d.n);
        explore<B>(d, [&](const B *x, size_t n) { static thread_local std::vector<B> yy, r; yy.assign(CH, y); r.resize(CH); if (c.b(n, x, yy.data(), r.data())) return; for (size_t i = 0; i < n; i++) { B e = m_next<B>(x[i], y); if (!same<B>(r[i], e)) { violation(op, cfg, {hex(x[i]), hex(y)}, hex(r[i]), hex(e)); if (too_many()) return; } } G.validated += n; }); }
}
void c_next() {
    for (auto cfg : cfgs()) {
        bool main = !strcmp(cfg, "arch");
        if (main) { Dom<u32> d = T_() ? dom_all<u32>() : lat<u32>(16, 6); next_u<u32>(cfg, d); next_u<u64>(cfg, lat<u64>(T_() ? 12 : 8, 6)); next_u<u64>(cfg, whitebox<u64>(T_() ? 16 : 4)); 
            // one full sweep of all 2^32 binary32 values stepping up
            Caller c("nextafterf", cfg); auto da = dom_all<u32>(); reg<u32>("nextafterf", cfg, "every binary32 value toward +inf and toward -inf", 2 * da.n); for (u32 y : {0x7f800000u, 0xff800000u}) explore<u32>(da, [&](const u32 *x, size_t n) { static thread_local std::vector<u32> yy, r; yy.assign(CH, y); r.resize(CH); if (c.b(n, x, yy.data(), r.data())) return; for (size_t i = 0; i < n; i++) { u32 v = x[i], e; if (v == y) e = y; else if ((v & 0x7fffffff) > 0x7f800000) e = 0x7fc00000; else if (!(v & 0x7fffffff)) e = (y & 0x80000000) | 1; else e = ((v ^ y) >> 31) ? v - 1 : v + 1; if (!same<u32>(r[i], e)) { violation("nextafterf", cfg, {hex(v), hex(y)}, hex(r[i]), hex(e)); if (too_many()) return; } } G.validated += n; }); }
        auto j32 = [](u32 x, u32 y, u32 r, u32 &e) { e = m_next<u32>(x, y); return same<u32>(r, e); }; auto j64 = [](u64 x, u64 y, u64 r, u64 &e) { e = m_next<u64>(x, y); return same<u64>(r, e); };
        auto A32 = cmp_alpha<u32>(main ? 2 : 9, 10, 500); ex_pairs<u32>("nextafterf", A32, A32, cfg, "all pairs", j32); auto A64 = cmp_alpha<u64>(main ? 17 : 97, 8, 500); ex_pairs<u64>("nextafter", A64, A64, cfg, "all pairs", j64);
    }
}
// ---- inputs built for one operation, for the checks that compare configurations or look for panics ----------------------------------
template <class B> u64 hard_exact(const std::string &f, int lvl, const Sink &sink) {
    std::atomic<u64> tot{0}; int big = sizeof(B) == 16;
    auto one = [&](std::vector<B> v) { uniq(v); tot += v.size(); parallel((v.size() + CH - 1) / CH, [&](u64 c) { size_t o = c * CH; sink(std::min<size_t>(CH, v.size() - o), &v[o], nullptr, nullptr); }); };
    auto two = [&](const std::vector<std::pair<B, B>> &p) { std::vector<B> X, Z; for (auto &q : p) { X.push_back(q.first); Z.push_back(q.second); } tot += X.size(); parallel((X.size() + CH - 1) / CH, [&](u64 c) { size_t o = c * CH; sink(std::min<size_t>(CH, X.size() - o), &X[o], &Z[o], nullptr); }); };
    if (sizeof(B) == 2 && f != "fma" && f != "fmod") return 0;
    if (f == "sqrt") { one(sqrt_hard<B>(lvl == 2 ? 12 : 8)); one(sqrt_near_ties<B>(lvl == 2 ? 1 << 16 : 1 << 12)); }
    for (const char *r : {"ceil", "floor", "trunc", "round", "roundeven", "rint", "modf"}) if (f == r) { auto d = int_edges<B>(lvl == 2 ? 9 : 5); std::vector<B> v(d.n); d.fill(0, d.n, v.data()); one(v); }
    if (f == "fmod" || f == "remainder" || f == "remquo") two(near_multiples<B>(cat(thin(edge_divisors<B>(), sizeof(B) == 16 ? 60 : 500), thin(rem_alpha<B>(sizeof(B) == 2 ? 2 : sizeof(B) == 4 ? 9 : big ? 900 : 67, 2, 60), lvl == 2 ? 900 : 150)), lvl == 2 ? 24 : 10));
    if (f == "fma") fma_hard_gen<B>(lvl == 2 ? 2048 : 256, 1, lvl == 2 ? 5 : 23, [&](const std::vector<B> &x, const std::vector<B> &y, const std::vector<B> &z) { tot += x.size(); for (size_t o = 0; o < x.size(); o += CH) sink(std::min<size_t>(CH, x.size() - o), &x[o], &y[o], &z[o]); });
    return tot;
}
template u64 hard_exact<u16>(const std::string &, int, const Sink &); template u64 hard_exact<u32>(const std::string &, int, const Sink &); template u64 hard_exact<u64>(const std::string &, int, const Sink &); template u64 hard_exact<u128>(const std::string &, int, const Sink &);
