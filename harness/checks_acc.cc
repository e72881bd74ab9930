// Accuracy of the elementary functions against the documented bounds (C10-C18).
// binary32 unary: every one of the 2^32 inputs. binary64: exponent x leading-bits lattices over the whole
// range and (denser) over the non-trivial range, plus critical-point alphabets.
#include "checks.h"
#include "exact.h"
#include "oracle.h"
static bool T() { return G.thorough; }
static void tick(const std::string &op, double t) { if (getenv("VERIF_TIME")) { printf("  time %s %.1fs\n", op.c_str(), elapsed() - t); fflush(stdout); } }
std::vector<const char *> configs() { std::vector<const char *> r; for (auto &p : SHIM_PATHS) r.push_back(p.first.c_str()); return r; }

// every constant that occurs in the current sources but not in the committed snapshot is explored densely
static std::vector<u64> delta64() {
    std::vector<u64> v;
    for (u64 L : newlit64()) {
        for (i64 k = -4096; k <= 4096; k++) { v.push_back(L + k); v.push_back((L + k) ^ F<u64>::SIGN); }
        u64 hw = L & 0xffffffff; if (!hw) hw = L >> 32;
        for (u64 h : {hw, hw & 0x7fffffff, hw - 1, hw + 1}) for (u64 s : {(u64)0, F<u64>::SIGN}) for (int j = 0; j < 64; j++) { u64 lo = j < 32 ? (1ull << j) : (0xffffffffull >> (j - 32)); v.push_back((h << 32 | lo) ^ s); v.push_back((h << 32) ^ s); v.push_back((h << 32 | L) ^ s); }
        // as a low-bit pattern below every exponent and the leading 6 significand bits
        for (int w : {8, 12, 16, 20, 24, 32, 40}) for (int e = 900; e <= 1150; e++) for (u64 top = 0; top < 16; top++) v.push_back(((u64)e << 52) | (top << 48) | (L & ((1ull << w) - 1)));
    }
    uniq(v); return v;
}
const Dom<u64> &delta_dom64() { static Dom<u64> d = dom_vec(delta64(), "constants new in the current sources: neighbours, high words, low patterns"); return d; }
static std::vector<u64> crit64() {
    std::vector<u64> v; int N = T() ? 1 << 18 : 1 << 14, r = T() ? 16 : 6;
    auto both = [&](double x, int rr) { u64 b = bc<u64>(x); if (F<u64>::nan(b)) return; for (int k = -rr; k <= rr; k++) { v.push_back(b + k); v.push_back((b + k) ^ F<u64>::SIGN); } };
    for (ld c : {0.346573590279972654708616060729088284L, 0.785398163397448309615660845819875721L, 0.150514997831990597606869447362246513L, 0.25L, 0.0054152123481245727295L / 2})
        for (int k = 1; k <= N; k++) both((double)(c * k), r);
    for (int k = 1; k <= 1 << 12; k++) { both((double)k / 4096, r); both(1 + (double)k / 4096, r); both(1.0 / k, r); both(sqrt((double)k), r); both(sqrt((double)k) / 64, r); }
    for (int e = 0; e < 2046; e++) for (u64 s : {(u64)0x6a09e667f3bcdull, (u64)0x8000000000000ull, (u64)0xbb67ae8584caaull}) { u64 b = ((u64)e << 52) | s; for (int k = -r; k <= r; k++) { v.push_back(b + k); v.push_back((b + k) ^ F<u64>::SIGN); } }
    uniq(v); return v;
}
static const Dom<u64> &crit_dom64() { static Dom<u64> d = dom_vec(crit64(), "critical points: multiples of ln2/2, pi/4, log10(2)/2, 1/4, ln2/128, dyadic table points, reciprocals, square roots, binade centres, neighbours"); return d; }
Dom<u64> alpha_dom64() { static Dom<u64> d = dom_vec(unary_alpha64(T() ? 512 : 48), "white-box alphabet: source literals, integers, half-integers, powers of two and format edges, with neighbours"); return d; }
// inputs at which the reference changes binade or outcome class, found by bisection between lattice points
static int oclass(u64 y) { return F<u64>::nan(y) ? 5000 : F<u64>::ex(y) + (F<u64>::neg(y) ? 10000 : 0) + (F<u64>::zero(y) ? 4000 : 0); }
static Dom<u64> outcome_dom64(const Fn1 &f, int lo, int hi, int r) {
    std::vector<u64> v; std::mutex mu;
    auto ev = [&](u64 x) { return oclass(bc<u64>((double)f.l(bc<double>(x)))); };
    int K = 6; u64 n = (u64)(hi - lo + 1) << K;
    parallel((n + 63) / 64 * 2, [&](u64 c) {
        u64 s = c & 1 ? F<u64>::SIGN : 0; std::vector<u64> w;
        for (u64 i = (c >> 1) * 64; i < std::min<u64>(n, (c >> 1) * 64 + 64); i++) {
            u64 a = ((u64)lo << 52) + (i << (52 - K)), b = a + (1ull << (52 - K)); if (b > F<u64>::INF) b = F<u64>::INF;
            int ca = ev(a | s), cb = ev(b | s); int steps_ = 0;
            while (ca != cb && steps_++ < 40) { u64 l = a, h = b; int cl = ca; while (h - l > 1) { u64 m = l + (h - l) / 2; if (ev(m | s) == cl) l = m; else h = m; } for (int k = -r; k <= r; k++) w.push_back((h + k) | s); a = h; ca = ev(a | s); }
        }
        std::lock_guard<std::mutex> l(mu); v.insert(v.end(), w.begin(), w.end());
    });
    return dom_vec(std::move(v), "inputs at which the reference result changes binade, sign, or outcome class, with neighbours");
}
void acc32(const std::string &op, const Fn1 &f, bool slow_tail) {
    double t = elapsed();
    if (!slow_tail || T()) check_unary32(op, f, dom_all<u32>());
    else { Dom<u32> a; a.n = (u64)157 << 24; a.desc = "every finite value below 2^30, both signs"; a.fill = [](u64 s, size_t c, u32 *o) { for (size_t i = 0; i < c; i++) { u64 v = s + i; o[i] = (u32)(v >> 1) | (u32)(v << 31); } };
        check_unary32(op, f, a); check_unary32(op, f, dom_lattice<u32>(157, 255, 14, low_patterns<u32>(6))); check_unary32(op, f, dom_vec(unary_alpha32(64), "white-box alphabet")); }
    tick(op, t);
    if (SHIM_PATHS.count("soft") && !T()) check_unary32(op, f, dom_lattice<u32>(0, 255, 11, low_patterns<u32>(4)), "soft"); else if (SHIM_PATHS.count("soft")) check_unary32(op, f, dom_lattice<u32>(0, 255, 17, low_patterns<u32>(4)), "soft");
    tick(op + "+soft", t);
}
// which white-box domains a binary64 accuracy check explores
void dense64(const std::string &op, const Fn1 &f, int k1, int k2, std::function<void(const Dom<u64> &, const char *)> chk) {
    double t = elapsed();
    chk(dom_lattice<u64>(0, 2047, T() ? k1 + 4 : k1, low_patterns<u64>(4)), "arch");
    chk(dom_lattice<u64>(f.e64lo, f.e64hi, T() ? k2 + 4 : k2, low_patterns<u64>(3)), "arch");
    chk(alpha_dom64(), "arch"); chk(crit_dom64(), "arch"); if (delta_dom64().n) chk(delta_dom64(), "arch");
    tick(op, t);
}
void acc64(const std::string &op, const Fn1 &f, int k1, int k2) {
    dense64(op, f, k1, k2, [&](const Dom<u64> &d, const char *cfg) { check_unary64(op, f, d, cfg); });
    double t = elapsed();
    check_unary64(op, f, outcome_dom64(f, f.e64lo - 20 < 0 ? 0 : f.e64lo - 20, f.e64hi, T() ? 256 : 24));
    if (SHIM_PATHS.count("soft")) { check_unary64(op, f, dom_lattice<u64>(0, 2047, 6, low_patterns<u64>(2)), "soft"); check_unary64(op, f, alpha_dom64(), "soft"); }
    tick(op + " outcome+soft", t);
}
void group(std::initializer_list<const char *> bases, bool f32, bool f64, int k1, int k2) {
    for (auto b : bases) { const Fn1 &f = *fn1(b); if (f32) acc32(std::string(b) + "f", f); if (f64) acc64(b, f, k1, k2); }
}
// ---- two-argument alphabets ------------------------------------------------------------------------
template <class B> static std::vector<B> dense_exps(int e0, int e1, int es, int k, std::initializer_list<B> low, bool signs = true) {
    std::vector<B> v; for (int e = e0; e <= e1; e += es) for (u64 t = 0; t < (1ull << k); t++) for (B l : low) for (int s = 0; s < (signs ? 2 : 1); s++) v.push_back((B)(((B)s << (F<B>::BITS - 1)) | ((B)e << F<B>::SIG) | ((B)t << (F<B>::SIG - k)) | (B)(l & (B)(((B)1 << (F<B>::SIG - k)) - 1)))); return v;
}
template <class B> static std::vector<B> join(std::vector<B> a, const std::vector<B> &b) { a.insert(a.end(), b.begin(), b.end()); uniq(a); return a; }
template <class B> static std::vector<B> thin_(const std::vector<B> &v, size_t want) { if (v.size() <= want) return v; std::vector<B> r; for (size_t i = 0; i < want; i++) r.push_back(v[(size_t)((u128)i * v.size() / want)]); return r; }
template <class B> static const std::vector<B> &LT();
template <> const std::vector<u32> &LT<u32>() { return lit32(); }
template <> const std::vector<u64> &LT<u64>() { return lit64(); }
template <class B> static void run_pairs(const std::string &op, const Fn2 &f, const std::vector<B> &A, const std::vector<B> &Bv, const char *cfg = "arch") { if constexpr (sizeof(B) == 4) check_pairs32(op, f, A, Bv, cfg); else check_pairs64(op, f, A, Bv, cfg); }
// arbitrary pair lists
template <class B> static void run_list(const std::string &op, const Fn2 &f, u64 chunks, const std::string &desc, std::function<void(u64, std::vector<B> &, std::vector<B> &)> gen, const char *cfg = "arch") {
    Caller c(op, cfg); std::atomic<u64> cnt{0};
    parallel(chunks, [&](u64 i) { static thread_local std::vector<B> x, z, y; x.clear(); z.clear(); gen(i, x, z); y.resize(x.size()); if (x.empty() || c.b(x.size(), x.data(), z.data(), y.data())) return; cnt += x.size();
        if constexpr (sizeof(B) == 4) judge2_32(op, f, x.data(), z.data(), y.data(), x.size(), cfg, f.a32); else judge2_64(op, f, x.data(), z.data(), y.data(), x.size(), cfg, f.a64); });
    G.states += cnt; std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += cnt; G.notes.push_back(op + "[" + cfg + "]: " + desc + fmt(" = %llu input pairs", (unsigned long long)cnt));
}
// ---- C10 cbrt, hypot -------------------------------------------------------------------------------
static Dom<u64> cbrt_hard(int k) {   // cubes of doubles and of midpoints between doubles
    std::vector<u64> v; auto low = low_patterns<u64>(5);
    for (u64 top = 0; top < (1ull << k); top++) for (u64 l : low) for (int h = 0; h < 2; h++) {
        u64 m = (1ull << 52) | (top << (52 - k)) | (l & ((1ull << (52 - k)) - 1)); W r = 2 * (W)m + h; W c = r * r * r;
        for (int t = 0; t < 3; t++) for (int e : {-159, -1110, 600, -1200}) { u64 x = enc<u64>(false, c, e / 3 * 3 + 0); (void)t; for (int d = -2; d <= 2; d++) { v.push_back(x + d); v.push_back((x + d) | F<u64>::SIGN); } }
    }
    // exact cubes: every integer up to 2^k and dyadic scalings
    for (u64 i = 1; i < (1ull << (k + 2)); i++) { W c = (W)i * i * i; for (int e : {0, -3, -30, -1074, -900, 300, 900}) { u64 x = enc<u64>(false, c, e); for (int d = -1; d <= 1; d++) v.push_back(x + d); } }
    return dom_vec(std::move(v), "cubes of doubles, cubes of midpoints between doubles, exact integer cubes and scalings, +-2 steps");
}
// smallest x >= 0 with l <= a*x mod m <= r, or -1
static i128 first_hit(i128 a, i128 m, i128 l, i128 r) {
    if (l <= 0) return 0; a %= m; if (a == 0) return -1;
    if (2 * a > m) return first_hit(m - a, m, m - r, m - l);
    i128 t = (l + a - 1) / a; if (t * a <= r) return t;
    i128 y = first_hit(m % a, a, ((-r) % a + a) % a, ((-l) % a + a) % a); return y < 0 ? -1 : (l + m * y + a - 1) / a;
}
// Every double among the 2^15 following each point of the lattice of leading k significand bits whose cube root lies within
// 2^-22 ulp of a midpoint between doubles: the cube root is linear there to 2^-24 ulp, so the hits are solved for exactly.
static Dom<u64> cbrt_near_ties(int k) {
    std::vector<u64> v; std::mutex mu; const i128 M = (i128)1 << 62; const i128 E = M >> 22; const u64 N = 1 << 15;
    parallel(3ull << (k - 6), [&](u64 blk) {
        std::vector<u64> w; for (u64 seg = blk << 6; seg < (blk + 1) << 6; seg++) {
            int it = (int)(seg >> k); u64 m0 = (1ull << 52) | ((seg & ((1ull << k) - 1)) << (52 - k));
            f128 a = cbrtf128((f128)m0 * (it == 2 ? 4 : it == 1 ? 2 : 1) * 0x1p-52L) * 0x1p52L; f128 b = a / (3 * (f128)m0) - a / (9 * (f128)m0 * (f128)m0) * (f128)N;   // mid-segment slope
            i128 A = (i128)((a - floorf128(a)) * (f128)M), Bv = (i128)(b * (f128)M);
            i128 off = ((M / 2 - E - A) % M + M) % M; u64 t = 0;   // want A + t*B mod M in [M/2-E, M/2+E]
            while (t < N) { i128 lo = ((off - (i128)t * Bv) % M + M) % M, hi = lo + 2 * E; i128 x; if (hi >= M) x = 0; else x = first_hit(Bv, M, lo, hi); if (x < 0) break; t += (u64)x; if (t >= N) break; w.push_back(((u64)(1023 + it) << 52) | (m0 + t) & F<u64>::SIGM); t++; }
        }
        std::lock_guard<std::mutex> l(mu); v.insert(v.end(), w.begin(), w.end()); });
    std::sort(v.begin(), v.end()); size_t n = v.size(); for (size_t i = 0; i < n; i++) { v.push_back(v[i] | F<u64>::SIGN); v.push_back(v[i] - (900ull << 52)); v.push_back(v[i] + (600ull << 52)); }
    return dom_vec(std::move(v), fmt("every double within 2^15 of the lattice of leading %d significand bits whose cube root is within 2^-22 ulp of a tie (%zu), both signs, other binades", k, n));
}
static std::vector<u64> cbrt_lits() {   // the significand of every constant of cbrt.rs at the exponents of many binades
    std::vector<u64> v; for (u64 L : lit64("cbrt")) for (int e = 1; e < 2046; e += (e < 1000 || e > 1050) ? 61 : 1) for (int d = -2; d <= 2; d++) { u64 x = ((u64)e << 52) | ((L + d) & F<u64>::SIGM); v.push_back(x); v.push_back(x | F<u64>::SIGN); }
    uniq(v); return v;
}
void c_cbrt_hypot() {
    const Fn1 &c = *fn1("cbrt"); double t0 = elapsed();
    auto exact = [&](auto tag, const std::string &op, const auto &d, const char *cfg) {
        typedef decltype(tag) B; Caller cl(op, cfg); { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += d.n; G.notes.push_back(op + "[" + cfg + "]: " + d.desc + fmt(" = %llu inputs", (unsigned long long)d.n)); }
        explore<B>(d, [&](const B *x, size_t n) {
            static thread_local std::vector<B> y; y.resize(CH); if (cl.u(n, x, y.data())) return; G.validated += n; u64 adj = 0;
            for (size_t i = 0; i < n; i++) {
                bool fast = false;
                if constexpr (sizeof(B) == 8) {   // extended-precision reference unless it is within 2^-6 ulp of a tie
                    ld r = cbrtl((ld)bc<double>(x[i])); u64 m; memcpy(&m, &r, 8); u64 t = m & 0x7ff;
                    fast = bc<u64>((double)r) == y[i] && !(t >= 0x3f0 && t <= 0x410);
                }
                if (fast) continue; adj++;
                if (!m_cbrt_ok<B>(x[i], y[i])) { if (too_many()) return; violation(op, cfg, {hex(x[i])}, hex(y[i]), "the correctly rounded cube root " + (sizeof(B) == 8 ? hex(bc<u64>((double)cbrtf128((f128)bc<double>((u64)x[i])))) : hex(bc<u32>((float)cbrtf128((f128)bc<float>((u32)x[i])))))); }
            }
            if (sizeof(B) == 8) G.adjudicated += adj;
        });
        if (d.n) sample(op + " exact " + d.desc.substr(0, 30)); };
    bool soft = SHIM_PATHS.count("soft");
    exact((u32)0, "cbrtf", dom_all<u32>(), "arch"); if (soft) exact((u32)0, "cbrtf", dom_lattice<u32>(0, 255, T() ? 17 : 11, low_patterns<u32>(4)), "soft"); tick("cbrtf", t0); t0 = elapsed();
    dense64("cbrt", c, 12, 20, [&](const Dom<u64> &d, const char *cfg) { exact((u64)0, "cbrt", d, cfg); });
    exact((u64)0, "cbrt", cbrt_hard(T() ? 16 : 12), "arch"); exact((u64)0, "cbrt", dom_vec(cbrt_lits(), "source constants at every exponent residue, both signs"), "arch");
    { auto d = cbrt_near_ties(T() ? 26 : 22); exact((u64)0, "cbrt", d, "arch"); if (soft) exact((u64)0, "cbrt", d, "soft"); }
    if (soft) { exact((u64)0, "cbrt", cbrt_hard(T() ? 12 : 8), "soft"); exact((u64)0, "cbrt", dom_lattice<u64>(0, 2047, 6, low_patterns<u64>(2)), "soft"); exact((u64)0, "cbrt", alpha_dom64(), "soft"); }
    tick("cbrt", t0);
    const Fn2 &h = *fn2("hypot"); double t = elapsed();
    auto hy = [&](auto tag, const std::string &op, const char *cfg, int es, int k, int gap, int gk) {
        typedef decltype(tag) B; typedef F<B> Y; bool m = !strcmp(cfg, "arch");
        auto S = join(special_vals<B>(), thin_(LT<B>(), m ? 800 : 100)); auto A = join(dense_exps<B>(0, Y::EMASK, es, k, {(B)0, (B)~(B)0}), S); run_pairs<B>(op, h, A, A, cfg);
        // every exponent gap that matters x significand grids, at several base exponents (scaling thresholds, subnormals, overflow)
        std::vector<int> base; for (int e : {0, 1, 2, Y::SIG, Y::BIAS, Y::EMASK - 1, Y::EMASK - 2, Y::BIAS - 510, Y::BIAS + 510, Y::BIAS - 450, Y::BIAS + 450, Y::BIAS - 700, Y::BIAS - 600, Y::BIAS + 700, Y::BIAS - 63, Y::BIAS + 63, Y::BIAS - 60, Y::BIAS + 60, Y::BIAS + 90, Y::BIAS - 90}) for (int d = -1; d <= 1; d++) if (e + d >= 0 && e + d < Y::EMASK) base.push_back(e + d);
        std::sort(base.begin(), base.end()); base.erase(std::unique(base.begin(), base.end()), base.end());
        run_list<B>(op, h, base.size() * (gap + 1), "exponent gaps x significand grids", [&](u64 i, std::vector<B> &x, std::vector<B> &z) {
            int e = base[i / (gap + 1)], g = (int)(i % (gap + 1)); if (e - g < 0) return; int sh = Y::SIG - gk;
            for (u64 a = 0; a < (1ull << gk); a++) for (u64 b = 0; b < (1ull << gk); b++) for (int l = 0; l < 4; l++) { B lo = (B)(((B)1 << sh) - 1); B p = (B)(((B)e << Y::SIG) | ((B)a << sh) | (l & 1 ? lo : (B)0)), q = (B)(((B)(e - g) << Y::SIG) | ((B)b << sh) | (l & 2 ? (B)(lo / 3) : (B)0)); if (i & 1) std::swap(p, q); x.push_back(p); z.push_back(q); } }, cfg);
    };
    hy((u32)0, "hypotf", "arch", 1, T() ? 5 : 4, 28, T() ? 9 : 8); tick("hypotf", t); t = elapsed();
    hy((u64)0, "hypot", "arch", 3, T() ? 3 : 2, 60, T() ? 8 : 7); hy((u64)0, "hypot", "soft", 31, 1, 60, 3); tick("hypot", t);
}
// ---- C11, C12 trigonometric ---------------------------------------------------------------------
void c_trig32() {
    for (auto b : {"sin", "cos", "tan"}) acc32(std::string(b) + "f", *fn1(b), true);
    Caller sc("sincosf"); const Fn1 &s = *fn1("sin"), &c = *fn1("cos"); double t = elapsed();
    auto run = [&](const Dom<u32> &d) { { std::lock_guard<std::mutex> l(G.mu); G.per_op["sincosf"] += d.n; } explore<u32>(d, [&](const u32 *x, size_t n) { static thread_local std::vector<u32> a, b; a.resize(CH); b.resize(CH); if (sc.call(n, x, nullptr, nullptr, a.data(), b.data())) return; judge32("sincosf", s, x, a.data(), n, "arch", s.a32); judge32("sincosf", c, x, b.data(), n, "arch", c.a32); }); };
    run(dom_lattice<u32>(0, 255, T() ? 20 : 15, low_patterns<u32>(8))); run(dom_vec(unary_alpha32(256), "white-box alphabet")); tick("sincosf", t);
}
static Dom<u64> trig_hard(int k) {
    std::vector<u64> v; for (u64 x : file_hex64("/verif/data/trig_worst.txt")) { add_neigh(v, x, 4); add_neigh(v, x | F<u64>::SIGN, 4); }
    for (u64 j = 1; j <= 1ull << k; j++) { u64 x = bc<u64>((double)((ld)j * 0.785398163397448309615660845819875721L)); for (int d = -2; d <= 2; d++) { v.push_back(x + d); if (!(j & 3)) v.push_back((x + d) | F<u64>::SIGN); } }
    for (int e = 20; e <= 52; e++) for (int j = -40; j <= 40; j++) { ld q = floorl(ldexpl(1.0L, e) / 0.785398163397448309615660845819875721L) + j; u64 x = bc<u64>((double)(q * 0.785398163397448309615660845819875721L)); for (int d = -2; d <= 2; d++) v.push_back(x + d); }
    return dom_vec(std::move(v), fmt("doubles nearest to multiples of pi/4 (all k <= 2^%d, best approximations in every binade), neighbours", k));
}
void c_trig64() {
    Dom<u64> hard = trig_hard(T() ? 22 : 18);
    for (auto b : {"sin", "cos", "tan"}) { const Fn1 &f = *fn1(b); acc64(b, f, 10, 18); double t = elapsed(); check_unary64(b, f, hard); check_unary64(b, f, dom_lattice<u64>(1023, 1075, T() ? 18 : 14, low_patterns<u64>(6))); tick("hard", t); }
    Caller sc("sincos"); const Fn1 &s = *fn1("sin"), &c = *fn1("cos"); double t = elapsed();
    auto run = [&](const Dom<u64> &d) { { std::lock_guard<std::mutex> l(G.mu); G.per_op["sincos"] += d.n; } explore<u64>(d, [&](const u64 *x, size_t n) { static thread_local std::vector<u64> a, b; a.resize(CH); b.resize(CH); if (sc.call(n, x, nullptr, nullptr, a.data(), b.data())) return; judge64("sincos", s, x, a.data(), n, "arch", s.a64); judge64("sincos", c, x, b.data(), n, "arch", c.a64); }); };
    run(dom_lattice<u64>(0, 2047, T() ? 11 : 7, low_patterns<u64>(4))); run(dom_lattice<u64>(985, 1100, T() ? 18 : 14, low_patterns<u64>(3))); run(hard); run(alpha_dom64()); if (delta_dom64().n) run(delta_dom64()); tick("sincos", t);
}
// ---- C13 inverse trigonometric -------------------------------------------------------------------
void c_itrig() {
    group({"acos", "asin", "atan"}, true, true, 11, 20);
    const Fn2 &f = *fn2("atan2"); double t = elapsed();
    { auto A = join(join(special_vals<u32>(), thin_(lit32(), 600)), dense_exps<u32>(0, 255, 1, 3, {0u, ~0u})); run_pairs<u32>("atan2f", f, A, A); tick("atan2f", t);
      auto Bq = join(special_vals<u32>(), dense_exps<u32>(0, 255, 5, 1, {0u, ~0u})); run_pairs<u32>("atan2f", f, Bq, Bq, "soft");
      auto Cq = dense_exps<u32>(127, 127, 1, T() ? 13 : 12, {0u}, false); run_pairs<u32>("atan2f", f, Cq, dense_exps<u32>(126, 129, 1, T() ? 10 : 8, {0u, 0x2b5u}, true)); }
    tick("atan2f", t); t = elapsed();
    { auto A = join(join(special_vals<u64>(), thin_(lit64(), 500)), dense_exps<u64>(0, 2047, T() ? 2 : 5, 2, {0ull, ~0ull})); run_pairs<u64>("atan2", f, A, A);
      auto Bq = join(special_vals<u64>(), dense_exps<u64>(0, 2047, 97, 1, {0ull, ~0ull})); run_pairs<u64>("atan2", f, Bq, Bq, "soft");
      static const int XB[] = {0, 1, 2, 53, 60, 64, 65, 66, 130, 1022, 1024, 1900, 1980, 2045, 2046};
      run_list<u64>("atan2", f, 15 * 140, "exponent gaps -70..69 at the ends of the format x significand grids, all quadrants", [&](u64 i, std::vector<u64> &x, std::vector<u64> &z) { int e = XB[i / 140], g = (int)(i % 140) - 70, k = T() ? 6 : 4; if (e + g < 0 || e + g > 2046) return; for (u64 a = 0; a < (1ull << k); a++) for (u64 b = 0; b < (1ull << k); b++) for (int s = 0; s < 4; s++) for (u64 l : {0ull, 1ull, 0x5555555555ull}) { x.push_back(((u64)(s & 1) << 63) | ((u64)e << 52) | (a << (52 - k)) | l); z.push_back(((u64)(s >> 1) << 63) | ((u64)(e + g) << 52) | (b << (52 - k)) | l); } });
      run_list<u64>("atan2", f, 140, "exponent gaps -70..69 x significand grids, all quadrants", [&](u64 i, std::vector<u64> &x, std::vector<u64> &z) { int g = (int)i - 70, k = T() ? 10 : 8; for (u64 a = 0; a < (1ull << k); a++) for (u64 b = 0; b < (1ull << k); b++) for (int s = 0; s < 4; s++) for (u64 l : {0ull, 0x5555555555ull}) { u64 p = ((u64)(s & 1) << 63) | (1023ull << 52) | (a << (52 - k)) | l, q = ((u64)(s >> 1) << 63) | ((u64)(1023 + g) << 52) | (b << (52 - k)); x.push_back(p); z.push_back(q); } }); }
    tick("atan2", t);
}
// ---- C14 exp family, C15 log family, C17 hyperbolic, C18 erf -------------------------------------------
void c_exp() { group({"exp", "exp2", "exp10", "expm1"}, true, true, 10, 20); }
static Dom<u64> near_one(int k) { std::vector<u64> v; for (int e = -53; e <= -1; e++) for (u64 t = 0; t < (1ull << k); t++) { ld d = ldexpl(1.0L + (ld)t / (1 << k), e); u64 a = bc<u64>((double)(1.0L + d)), b = bc<u64>((double)(1.0L - d)); for (int j = -1; j <= 1; j++) { v.push_back(a + j); v.push_back(b + j); } } return dom_vec(std::move(v), "1 +- d for d over every binade down to one ulp"); }
void c_log() {
    group({"log", "log10", "log1p", "log2"}, true, true, 11, 20);
    for (auto b : {"log", "log10", "log2", "log1p"}) check_unary64(b, *fn1(b), near_one(T() ? 15 : 12));
}
void c_hyp() {
    group({"acosh", "asinh", "atanh", "cosh", "sinh", "tanh"}, true, true, 10, 20);
    for (auto b : {"acosh", "atanh"}) check_unary64(b, *fn1(b), near_one(T() ? 15 : 12));
}
void c_erf() { group({"erf", "erfc"}, true, true, 11, 20); }
// ---- C16 pow -----------------------------------------------------------------------------------------
template <class B> static void pow_block(const std::string &op, const char *cfg, int lvl) {
    typedef F<B> Y; const Fn2 &f = *fn2("pow"); bool d64 = sizeof(B) == 8;
    auto S = join(special_vals<B>(), thin_(LT<B>(), lvl ? 500 : 60)); std::vector<B> I; for (int k = 0; k <= (lvl ? 64 : 12); k++) for (int h = 0; h < 4; h++) { double x = k + h * 0.25; B b = sizeof(B) == 4 ? (B)bc<u32>((float)x) : (B)bc<u64>(x); I.push_back(b); I.push_back((B)(b | Y::SIGN)); I.push_back((B)(b + 1)); I.push_back((B)(b - 1)); }
    for (int k = 0; k <= Y::BITS; k++) for (int j = -2; j <= 2; j++) { double x = ldexp(1.0, k) + j; B b = sizeof(B) == 4 ? (B)bc<u32>((float)x) : (B)bc<u64>(x); I.push_back(b); I.push_back((B)(b | Y::SIGN)); }
    S = join(S, I);
    auto A = join(S, dense_exps<B>(0, Y::EMASK, d64 ? (lvl ? 5 : 61) : (lvl ? 1 : 16), lvl ? (d64 ? 2 : 3) : 1, {(B)0, (B)~(B)0})); run_pairs<B>(op, f, A, A, cfg);
    // x near 1 and over the central binades against y scaled so that |y log2 x| sweeps the whole exponent range
    int k = lvl ? (T() ? 14 : 11) : 6, m = lvl ? (T() ? 2048 : 800) : 60;
    auto X = dense_exps<B>(Y::BIAS - 2, Y::BIAS + 2, 1, k, {(B)0, (B)(~(B)0 / 3)}, false); for (int e = 2; e <= Y::SIG; e++) for (int j = 0; j < (lvl ? 48 : 4); j++) { B dl = (B)(((B)1 << (Y::SIG - e)) + (B)((B)j << (Y::SIG - e)) / 48); X.push_back((B)(Y::ONE + dl)); X.push_back((B)(Y::ONE - dl)); }
    auto XX = dense_exps<B>(0, Y::EMASK - 1, d64 ? 16 : 3, lvl ? 2 : 0, {(B)0, (B)~(B)0}, false); X.insert(X.end(), XX.begin(), XX.end()); for (B x : LT<B>()) if (Y::fin(x) && lvl) X.push_back((B)(x & Y::ABS)); uniq(X);
    ld emax = d64 ? 1024 : 128, emin = d64 ? -1075 : -150;
    run_list<B>(op, f, X.size(), "bases x exponents chosen so that the result sweeps the whole range, its overflow and underflow edges", [&](u64 i, std::vector<B> &x, std::vector<B> &z) {
        B b = X[i]; ld v = d64 ? (ld)bc<double>((u64)b) : (ld)bc<float>((u32)b); ld lg = log2l(v); if (!(fabsl(lg) > 0)) return;
        auto add = [&](ld y, int r) { B yb = d64 ? (B)bc<u64>((double)y) : (B)bc<u32>((float)y); if (Y::nan(yb)) return; for (int q = -r; q <= r; q++) { x.push_back(b); z.push_back((B)(yb + q)); } };
        for (int j = 0; j <= m; j++) add((emin + (emax - emin) * j / m) / lg, 0);
        // the same powers of the negated base, at the integers on both sides of each exponent: the parity decides the sign wherever the result lies
        auto neg = [&](ld y) { for (int q = 0; q < 2; q++) { ld r = floorl(y) + q; B yb = d64 ? (B)bc<u64>((double)r) : (B)bc<u32>((float)r); if (Y::nan(yb)) continue; x.push_back((B)(b | Y::SIGN)); z.push_back(yb); } };
        for (int j = 0; j <= m; j += 16) neg((emin + (emax - emin) * j / m) / lg);
        for (ld e : {emax - 1, emax, emax + 1, emin, emin + 1, emin + 2, emin + (d64 ? 40 : 18), emin + (d64 ? 53 : 24), emin + (d64 ? 60 : 30), emin - 1, emin - 40}) neg(e / lg);
        for (ld e : {emax, emin, emin + 1, emin + (d64 ? 53 : 24), (ld)0.5L, (ld)-0.5L, (ld)1.0L, (ld)-1.0L}) add(e / lg, lvl ? 12 : 2); }, cfg);
}
void c_pow() {
    double t = elapsed(); pow_block<u32>("powf", "arch", 1); pow_block<u32>("powf", "soft", 0); tick("powf", t); t = elapsed();
    pow_block<u64>("pow", "arch", 1); pow_block<u64>("pow", "soft", 0); tick("pow", t);
    // dense bases against small integer, half-integer and fractional exponents
    { const Fn2 &f = *fn2("pow"); t = elapsed(); std::vector<u32> Y; std::vector<u64> Z; for (int k = 0; k <= 40; k++) for (double h : {0.0, 0.5, 0.25, 1.0 / 3, 0.1}) for (int s = 0; s < 2; s++) { double v = (k + h) * (s ? -1 : 1); Y.push_back(bc<u32>((float)v)); Z.push_back(bc<u64>(v)); } uniq(Y); uniq(Z);
      run_pairs<u32>("powf", f, dense_exps<u32>(0, 254, 1, T() ? 16 : 12, {0u}, true), thin_(Y, T() ? 400 : 128)); run_pairs<u64>("pow", f, dense_exps<u64>(0, 2046, T() ? 1 : 3, T() ? 7 : 5, {0ull, ~0ull}, true), thin_(Z, T() ? 400 : 128)); run_pairs<u64>("pow", f, dense_exps<u64>(1018, 1028, 1, T() ? 15 : 12, {0ull, ~0ull}, true), thin_(Z, T() ? 400 : 64)); tick("pow dense", t);
      for (auto p : {0x3f000000u, 0x40000000u, 0x40400000u, 0xbf800000u, 0x3eaaaaabu, 0x41200000u, 0xc0a00000u}) if (T()) { auto A = std::vector<u32>{p}; for (u64 blk = 0; blk < 256; blk++) { std::vector<u32> X(1 << 24); for (u32 i = 0; i < (1u << 24); i++) X[i] = (u32)(blk << 24) | i; run_list<u32>("powf", f, 4096, fmt("every binary32 base in block %llu, exponent %s", (unsigned long long)blk, hex(p).c_str()), [&](u64 c, std::vector<u32> &x, std::vector<u32> &z) { x.assign(X.begin() + c * 4096, X.begin() + (c + 1) * 4096); z.assign(4096, p); }); } } }
}
// ---- inputs built for one operation, for the checks that compare configurations or look for panics
u64 hard_acc64(const std::string &f, int lvl, const Sink &sink) {
    u64 tot = 0; auto dom = [&](const Dom<u64> &d) { tot += d.n; parallel((d.n + CH - 1) / CH, [&](u64 c) { static thread_local std::vector<u64> b; b.resize(CH); u64 s = c * CH; size_t n = std::min<u64>(CH, d.n - s); d.fill(s, n, b.data()); sink(n, b.data(), nullptr, nullptr); }); };
    if (f == "cbrt") { dom(cbrt_hard(lvl == 2 ? 9 : 5)); dom(dom_vec(cbrt_lits(), "")); dom(cbrt_near_ties(lvl == 2 ? 18 : 14)); }
    if (f == "sin" || f == "cos" || f == "tan" || f == "sincos") dom(trig_hard(lvl == 2 ? 16 : 11));
    return tot;
}
