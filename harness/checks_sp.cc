// C19 gamma functions, C20 Bessel functions: bounds that are relative near zeros make no sense, so the
// error is measured against a stated scale (see properties.jsonl); everything is decided in binary128.
#include "checks.h"
#include "exact.h"
#include "oracle.h"
static bool T() { return G.thorough; }
static void tick(const char *n, double t) { if (getenv("VERIF_TIME")) { printf("  time %s %.1fs\n", n, elapsed() - t); fflush(stdout); } }
static std::mutex wm; static void upd(const std::string &op, double w) { if (!(w >= 0)) return; std::lock_guard<std::mutex> l(wm); auto &x = G.worst[op]; u64 v = w > 1e15 ? (u64)1e15 : (u64)ceil(w); if (v > x) x = v; }
template <class B> static constexpr int PREC = F<B>::SIG + 1;
static f128 qabs(f128 x) { return x < 0 ? -x : x; }
template <class B> static bool is_max(B y) { return (B)(y & F<B>::ABS) == F<B>::MAXF; }
// |y - q| <= c * 2^-p * scale + a few subnormal steps, with overflow allowed exactly where the correctly scaled result may overflow
template <class B> static bool within(B y, f128 q, f128 scale, double c, double *w) {
    typedef F<B> Y; *w = 0; if (q != q || Y::nan(y)) return (q != q) && Y::nan(y);
    f128 tol = (f128)c * scalbnf128(1, -PREC<B>) * scale + scalbnf128(4, Y::EMIN - Y::SIG); f128 mx = to_q<B>(Y::MAXF);
    if (Y::inf(y)) { f128 lim = mx * (1 + scalbnf128(1, -PREC<B>)); return ((q < 0) == Y::neg(y)) && (qabs(q) + tol >= lim || q - q != 0); }
    if (q - q != 0) return false; // infinite reference, finite result
    f128 qq = q; f128 d = qabs(to_q<B>(y) - qq); if (d <= tol) { *w = (double)(d / (scalbnf128(1, -PREC<B>) * scale + scalbnf128(1, Y::EMIN - Y::SIG))); return true; }
    if (qabs(q) > mx && is_max<B>(y) && (q < 0) == Y::neg(y)) return qabs(q) - tol <= mx; return false;
}
// ---- gamma ------------------------------------------------------------------------------------------
static f128 sinpi_q(f128 x) { f128 r = fmodf128(x, 2); if (r < 0) r += 2; int n = (int)(r * 4); n = (n + 1) / 2; r = (r - n * (f128)0.5Q) * 3.14159265358979323846264338327950288419716939937510582097494Q; switch (n & 3) { case 0: return sinf128(r); case 1: return cosf128(r); case 2: return -sinf128(r); default: return -cosf128(r); } }
template <class B> struct LG { f128 q, scale; int sign; bool pole; };
template <class B> static LG<B> m_lgamma(B x) {
    typedef F<B> Y; LG<B> r{0, 0, 1, false}; f128 v = to_q<B>(x); if (Y::nan(x)) { r.q = v; return r; } if (Y::inf(x)) { r.q = 1.0Q / 0.0Q; r.pole = Y::neg(x); return r; }
    if (Y::zero(x)) { r.q = 1.0Q / 0.0Q; r.sign = Y::neg(x) ? -1 : 1; return r; }
    if (v > 0) { r.q = lgammaf128(v); r.scale = qabs(r.q); return r; }
    f128 a = -v, fl = floorf128(a); if (fl == a) { r.q = 1.0Q / 0.0Q; r.pole = true; return r; }
    r.sign = fmodf128(fl, 2) == 0 ? -1 : 1; f128 l1 = logf128(3.14159265358979323846264338327950288419716939937510582097494Q / (a * qabs(sinpi_q(a)))), l2 = lgammaf128(a); r.q = l1 - l2; r.scale = qabs(l1) + qabs(l2) + 1; return r;
}
static const double LGC = 16;   // stated constant: error in units of 2^-p of (|log of the reflection factor| + |lgamma(-x)| + 1)
template <class B> static void lg_judge(const std::string &op, const B *x, const B *y, const i32 *sg, size_t n) {
    typedef F<B> Y; double worst = 0; u64 wsteps = 0; G.validated += n;
    for (size_t i = 0; i < n && !too_many(); i++) {
        bool neg = Y::neg(x[i]) && !Y::nan(x[i]) && !Y::zero(x[i]); 
        // prefilter in extended precision for positive arguments
        if (!neg && !Y::nan(x[i])) { ld r = sizeof(B) == 4 ? (ld)lgamma((double)to_q<B>(x[i])) : lgammal((ld)to_q<B>(x[i])); B rb = sizeof(B) == 4 ? (B)bc<u32>((float)r) : (B)bc<u64>((double)r); i128 d = Y::ord(y[i]) - Y::ord(rb); if (d < 0) d = -d; if (!Y::nan(y[i]) && d <= 15) { if ((u64)d > wsteps) wsteps = (u64)d; if (!sg || sg[i] == (Y::neg(x[i]) ? -1 : 1)) continue; } }
        else if (neg && sizeof(B) == 4 && !Y::inf(x[i])) { // binary32: glibc's double lgamma_r is far more accurate than the scale asked for
            int s; double v = (double)to_q<B>(x[i]), r = lgamma_r(v, &s), a = -v; if (a == floor(a)) { if ((B)(y[i]) == Y::INF && (!sg || sg[i] == 1 || sg[i] == -1)) continue; } else { double d = fabs((double)to_q<B>(y[i]) - r); if (d <= LGC / 2 * 0x1p-24 * (fabs(r) + 1) && (!sg || sg[i] == s)) continue; } }
        G.adjudicated++; LG<B> m = m_lgamma<B>(x[i]); bool ok; double w = 0;
        if (m.q != m.q) ok = Y::nan(y[i]); else if (m.q - m.q != 0) ok = y[i] == Y::INF; else if (to_q<B>(x[i]) > 0) { i128 s = steps<B>(y[i], m.q); ok = s >= 0 && s <= 16; if (ok && (u64)s > wsteps) wsteps = (u64)s; } else ok = within<B>(y[i], m.q, m.scale, LGC, &w);
        if (w > worst) worst = w;
        if (sg && ok && !Y::nan(x[i])) ok = m.pole ? (sg[i] == 1 || sg[i] == -1) : sg[i] == m.sign;
        if (!ok) violation(op, "arch", {hex(x[i])}, hex(y[i]) + (sg ? fmt(",%d", sg[i]) : ""), m.q != m.q ? "NaN" : hex(round_q<B>(m.q)) + (sg ? fmt(",%d", m.sign) : ""));
    }
    upd(op + " (x<0, units of scale)", worst); std::lock_guard<std::mutex> l(wm); auto &z = G.worst[op + " (x>0, steps)"]; if (wsteps > z) z = wsteps;
}
template <class B> static void lg_run(const std::string &sfx, const Dom<B> &d) {
    Caller a("lgamma" + sfx), r("lgamma" + sfx + "_r"); { std::lock_guard<std::mutex> l(G.mu); G.per_op[a.op->name] += d.n; G.per_op[r.op->name] += d.n; G.notes.push_back(std::string(a.op->name) + " and " + r.op->name + ": " + d.desc + fmt(" = %llu inputs", (unsigned long long)d.n)); }
    explore<B>(d, [&](const B *x, size_t n) { static thread_local std::vector<B> y, z; static thread_local std::vector<i32> s; y.resize(CH); z.resize(CH); s.resize(CH); if (r.call(n, x, nullptr, nullptr, y.data(), s.data()) || a.u(n, x, z.data())) return;
        lg_judge<B>(r.op->name, x, y.data(), s.data(), n);
        for (size_t i = 0; i < n; i++) if (y[i] != z[i] && !(F<B>::nan(y[i]) && F<B>::nan(z[i]))) { violation(a.op->name, "arch", {hex(x[i])}, hex(z[i]), hex(y[i]) + " (value of the reentrant variant)"); if (too_many()) return; } });
}
template <class B> static std::vector<B> gamma_points(int r) {   // around every integer and half-integer of the interesting range, and the zeros of lgamma between them
    std::vector<B> v; for (int k = 0; k <= 2100; k++) { double x = k * 0.5; for (int s = 0; s < 2; s++) { double z = s ? -x : x; B b = sizeof(B) == 4 ? (B)bc<u32>((float)z) : (B)bc<u64>(z); add_neigh(v, b, r); for (int j = 1; j < F<B>::SIG; j++) { v.push_back((B)(b + ((B)1 << j))); v.push_back((B)(b - ((B)1 << j))); } } }
    for (int k = 2; k < 40; k++) for (int h = 0; h < 2; h++) { f128 lo = -(f128)k - (f128)(h ? 1 : 0.5Q), hi = lo + (f128)0.5Q; lo += (f128)1e-12Q; hi -= (f128)1e-12Q; // lgamma changes sign inside some of these half-unit cells
        auto f = [](f128 x) { f128 a = -x; return logf128(3.14159265358979323846264338327950288419716939937510582097494Q / (a * qabs(sinpi_q(a)))) - lgammaf128(a); }; if ((f(lo) < 0) == (f(hi) < 0)) continue; bool neg = f(lo) < 0; for (int i = 0; i < 120; i++) { f128 m = (lo + hi) / 2; if ((f(m) < 0) == neg) lo = m; else hi = m; } add_neigh(v, round_q<B>(lo), r); }
    uniq(v); return v;
}
void c_gamma() {
    const Fn1 &tg = *fn1("tgamma"), &lg = *fn1("lgamma"); double t = elapsed();
    if (T()) acc32("tgammaf", tg); else { check_unary32("tgammaf", tg, dom_lattice<u32>(90, 137, 23, {0})); check_unary32("tgammaf", tg, dom_lattice<u32>(0, 255, 14, low_patterns<u32>(6))); check_unary32("tgammaf", tg, dom_vec(unary_alpha32(64), "white-box alphabet")); } tick("tgammaf", t); t = elapsed();
    acc64("tgamma", tg, 9, 18); check_unary64("tgamma", tg, dom_vec(gamma_points<u64>(T() ? 512 : 64), "integers and half-integers with neighbours at every scale")); check_unary64("tgamma", tg, dom_lattice<u64>(1023, 1030, T() ? 24 : 20, low_patterns<u64>(2))); tick("tgamma", t); t = elapsed();
    if (T()) lg_run<u32>("f", dom_all<u32>()); else { lg_run<u32>("f", dom_lattice<u32>(0, 255, 14, low_patterns<u32>(6))); lg_run<u32>("f", dom_lattice<u32>(120, 135, 20, low_patterns<u32>(4))); lg_run<u32>("f", dom_vec(unary_alpha32(64), "white-box alphabet")); }
    lg_run<u32>("f", dom_vec(gamma_points<u32>(64), "integers, half-integers and zeros with neighbours at every scale")); tick("lgammaf", t); t = elapsed();
    dense64("lgamma", lg, 7, 13, [&](const Dom<u64> &d, const char *) { lg_run<u64>("", d); }); lg_run<u64>("", dom_vec(gamma_points<u64>(T() ? 256 : 16), "integers, half-integers and zeros of lgamma with neighbours at every scale")); tick("lgamma", t);
}
// ---- Bessel -------------------------------------------------------------------------------------------
static f128 bref(int n, bool y, f128 x) { if (n == 0) return y ? y0f128(x) : j0f128(x); if (n == 1) return y ? y1f128(x) : j1f128(x); return y ? ynf128(n, x) : jnf128(n, x); }
static f128 bscale(int n, bool y, f128 x, f128 q) {
    x = qabs(x); int an = n < 0 ? -n : n; f128 a = qabs(q); if (!y && x < (an > 2 ? an : 2)) return a;
    f128 m = hypotf128(bref(n, false, x), bref(n, true, x)); return a > m ? a : m;
}
template <class B> static void b_judge(const std::string &op, int n, bool ybes, double c, const B *x, const B *y, size_t cnt, double *worst) {
    typedef F<B> Y;
    for (size_t i = 0; i < cnt && !too_many(); i++) {
        B v = x[i]; bool ok; double w = 0; f128 q = 0, s = 0;
        if (Y::nan(v)) ok = Y::nan(y[i]); else if (ybes && Y::neg(v) && !Y::zero(v)) { ok = Y::nan(y[i]); q = __builtin_nanf128(""); if (Y::inf(v) && n != 0 && n != 1) ok = true; }
        else if (Y::inf(v)) { ok = Y::zero(y[i]); }
        else if (ybes && Y::zero(v)) { ok = Y::inf(y[i]) && (Y::neg(y[i]) == !(n < 0 && (n & 1))); q = -1 / (f128)0; }
        else {
            if (sizeof(B) == 4) { // glibc's double Bessel functions are far more accurate than a binary32 result needs
                double xd = (double)to_q<B>(v), r = n == 0 ? (ybes ? y0(xd) : j0(xd)) : n == 1 ? (ybes ? y1(xd) : j1(xd)) : (ybes ? yn(n, xd) : jn(n, xd)); double d = fabs((double)to_q<B>(y[i]) - r), sc = fabs(r); if (d <= c / 2 * 0x1p-24 * sc && sc > 0x1p-120 && sc < 0x1p127) { continue; } }
            else { ld xd = (ld)to_q<B>(v), r = n == 0 ? (ybes ? y0l(xd) : j0l(xd)) : n == 1 ? (ybes ? y1l(xd) : j1l(xd)) : (ybes ? ynl(n, xd) : jnl(n, xd)); ld d = fabsl((ld)to_q<B>(y[i]) - r), sc = fabsl(r); if (d <= c / 2 * 0x1p-53 * sc && sc > 0x1p-1000 && sc < 0x1p1023L) continue; }
            G.adjudicated++; q = bref(n, ybes, to_q<B>(v)); s = bscale(n, ybes, to_q<B>(v), q); ok = within<B>(y[i], q, s, c, &w);
        }
        if (w > *worst) *worst = w;
        if (!ok) { bool nn = op[1] == 'n'; std::vector<std::string> in{hex(v)}; if (nn) in.push_back(fmt("%d", n)); violation(op, "arch", in, hex(y[i]), q != q ? "NaN" : hex(round_q<B>(q)) + fmt(" within %g units of 2^-%d of the envelope", c, PREC<B>)); }
    }
    G.validated += cnt;
}
template <class B> static void b_unary(const std::string &op, int n, bool y, const Dom<B> &d) {
    Caller c(op); { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += d.n; G.notes.push_back(op + ": " + d.desc + fmt(" = %llu inputs", (unsigned long long)d.n)); }
    explore<B>(d, [&](const B *x, size_t k) { static thread_local std::vector<B> o; o.resize(CH); if (c.u(k, x, o.data())) return; double w = 0; b_judge<B>(op, n, y, 8, x, o.data(), k, &w); upd(op + " (units of 2^-p of the envelope)", w); });
}
template <class B> static void b_order(const std::string &op, bool y, const std::vector<B> &X, const std::vector<int> &N) {
    Caller c(op); std::string o0 = std::string(y ? "y0" : "j0") + (sizeof(B) == 4 ? "f" : ""), o1 = std::string(y ? "y1" : "j1") + (sizeof(B) == 4 ? "f" : ""); Caller c0(o0), c1(o1);
    { std::lock_guard<std::mutex> l(G.mu); G.per_op[op] += X.size() * N.size(); G.notes.push_back(op + fmt(": %zu orders x %zu arguments", N.size(), X.size())); }
    size_t bl = 256, nb = (X.size() + bl - 1) / bl;
    parallel(N.size() * nb, [&](u64 i) {
        int n = N[i / nb]; size_t s = (i % nb) * bl, k = std::min(bl, X.size() - s); static thread_local std::vector<B> o, p; static thread_local std::vector<i32> nn; o.resize(bl); p.resize(bl); nn.assign(bl, n);
        if (c.call(k, X.data() + s, nn.data(), nullptr, o.data(), nullptr)) return; double w = 0;
        if (n >= -1 && n <= 1) { (n == 0 ? c0 : c1).u(k, X.data() + s, p.data()); for (size_t j = 0; j < k; j++) { B e = p[j]; if (n == -1) e = (B)(e ^ F<B>::SIGN); if (F<B>::nan(e) && F<B>::nan(o[j])) continue; if (o[j] != e && !(F<B>::zero(e) && F<B>::zero(o[j]))) violation(op, "arch", {hex(X[s + j]), fmt("%d", n)}, hex(o[j]), hex(e) + " (order 0 and 1 equal the dedicated function)"); } G.validated += k; return; }
        b_judge<B>(op, n, y, 64 + 2.0 * abs(n), X.data() + s, o.data(), k, &w); upd(op + fmt(" n<=%d", abs(n) <= 10 ? 10 : abs(n) <= 100 ? 100 : 1000), w);
        // parity: order -n and argument -x
        for (int q = 0; q < 2; q++) { if (y && q) continue; std::vector<B> xx(X.begin() + s, X.begin() + s + k); nn.assign(bl, q ? n : -n); if (q) for (auto &v : xx) v = (B)(v ^ F<B>::SIGN); if (c.call(k, xx.data(), nn.data(), nullptr, p.data(), nullptr)) continue;
            for (size_t j = 0; j < k; j++) { B e = (n & 1) ? (B)(o[j] ^ F<B>::SIGN) : o[j]; if ((F<B>::nan(e) && F<B>::nan(p[j])) || (F<B>::zero(e) && F<B>::zero(p[j]))) continue; if (p[j] != e) violation(op, "arch", {hex(xx[j]), fmt("%d", nn[j])}, hex(p[j]), hex(e) + " (parity in order and argument)"); } }
    });
    G.states += X.size() * N.size();
}
void c_bessel() {
    double t;
    auto zeros32 = [&](int n, bool y) { std::vector<u32> v; float prev = 0; int ps = 0; for (int i = 1; i <= 64 * 400; i++) { float x = i / 64.0f * 2; double r = n ? (y ? y1(x) : j1(x)) : (y ? y0(x) : j0(x)); int s = r < 0; if (i > 1 && s != ps) { float lo = prev, hi = x; while (bc<u32>(hi) - bc<u32>(lo) > 1) { float m = bc<float>((u32)(bc<u32>(lo) + (bc<u32>(hi) - bc<u32>(lo)) / 2)); double q = n ? (y ? y1(m) : j1(m)) : (y ? y0(m) : j0(m)); if ((q < 0) == ps) lo = m; else hi = m; } add_neigh(v, bc<u32>(lo), 16); } ps = s; prev = x; } return v; };
    auto zeros64 = [&](int n, bool y) { std::vector<u64> v; double prev = 0; int ps = 0; for (int i = 1; i <= 64 * 200; i++) { double x = i / 32.0; double r = n ? (y ? y1(x) : j1(x)) : (y ? y0(x) : j0(x)); int s = r < 0; if (i > 1 && s != ps) { double lo = prev, hi = x; while (bc<u64>(hi) - bc<u64>(lo) > 1) { double m = bc<double>((u64)(bc<u64>(lo) + (bc<u64>(hi) - bc<u64>(lo)) / 2)); double q = n ? (y ? y1(m) : j1(m)) : (y ? y0(m) : j0(m)); if ((q < 0) == ps) lo = m; else hi = m; } add_neigh(v, bc<u64>(lo), 16); } ps = s; prev = x; } return v; };
    for (int n = 0; n < 2; n++) for (int y = 0; y < 2; y++) {
        std::string op = std::string(y ? "y" : "j") + (n ? "1" : "0"); int sg = y ? 1 : 2; t = elapsed();
        if (T()) b_unary<u32>(op + "f", n, y, dom_all<u32>()); else { b_unary<u32>(op + "f", n, y, dom_lattice<u32>(0, 255, 13, low_patterns<u32>(3), 2)); b_unary<u32>(op + "f", n, y, dom_lattice<u32>(117, 140, 20, low_patterns<u32>(2), sg)); b_unary<u32>(op + "f", n, y, dom_vec(unary_alpha32(16), "white-box alphabet")); }
        b_unary<u32>(op + "f", n, y, dom_vec(zeros32(n, y), "binary32 values around the zeros")); tick((op + "f").c_str(), t); t = elapsed();
        b_unary<u64>(op, n, y, dom_lattice<u64>(0, 2047, T() ? 11 : 8, low_patterns<u64>(2))); b_unary<u64>(op, n, y, dom_lattice<u64>(990, 1040, T() ? 19 : 16, low_patterns<u64>(3), sg)); b_unary<u64>(op, n, y, dom_vec(unary_alpha64(T() ? 128 : 32), "white-box alphabet")); b_unary<u64>(op, n, y, dom_vec(zeros64(n, y), "binary64 values around the zeros")); if (delta_dom64().n) b_unary<u64>(op, n, y, delta_dom64()); tick(op.c_str(), t);
    }
    std::vector<int> N; for (int n = -70; n <= 70; n++) N.push_back(n); for (int n : {50, 64, 77, 100, 128, 150, 199, 200, 201, 213, 256, 300, -50, -101, -300}) N.push_back(n);
    std::vector<u32> X32 = special_vals<u32>(); for (int e = 60; e <= 254; e += (T() ? 1 : e < 110 || e > 150 ? 3 : 1)) for (u32 k = 0; k < (T() ? 256 : 64); k++) for (u32 l : {0u, 0x5b7u}) X32.push_back((u32)e << 23 | k * (0x800000 / (T() ? 256 : 64)) | l); for (int k = 1; k <= 340; k++) { for (float d : {-0.5f, -0.01f, 0.0f, 0.3f}) X32.push_back(bc<u32>((float)k + d)); }
    std::vector<u64> X64 = special_vals<u64>(); for (int e = 300; e <= 2046; e += (T() ? 3 : e < 980 || e > 1050 ? 13 : 1)) for (u64 k = 0; k < (T() ? 128 : 32); k++) for (u64 l : {0ull, 0x5b7b1ull}) X64.push_back((u64)e << 52 | k * ((1ull << 52) / (T() ? 128 : 32)) | l); for (int k = 1; k <= 340; k++) { for (double d : {-0.5, -0.01, 0.0, 0.3}) X64.push_back(bc<u64>((double)k + d)); }
    for (i64 k = -3; k <= 3; k++) { X64.push_back(0x52d0000000000000ull + k); X64.push_back(0x3e10000000000000ull + k); X32.push_back((u32)(0x30000000 + k)); X32.push_back((u32)(0x35800000 + k)); }
    uniq(X32); uniq(X64);
    t = elapsed(); b_order<u32>("jnf", false, X32, N); tick("jnf", t); t = elapsed(); b_order<u32>("ynf", true, X32, N); tick("ynf", t); t = elapsed(); b_order<u64>("jn", false, X64, N); tick("jn", t); t = elapsed(); b_order<u64>("yn", true, X64, N); tick("yn", t); t = elapsed();
    // large orders: arguments on both sides of the order, and far from it
    std::vector<int> L = {301, 333, 400, 512, 777, 1000, -1001, 1500, 2048, 3000}; if (T()) for (int n : {5000, 8191, -10000, 20000, 50000}) L.push_back(n);
    std::vector<u32> Y32 = special_vals<u32>(); std::vector<u64> Y64 = special_vals<u64>(); for (int n : L) for (double f : {1e-30, 1e-3, 0.1, 0.25, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.98, 0.99, 1.0, 1.01, 1.02, 1.05, 1.1, 1.3, 2.0, 3.7, 10.0, 1e3, 1e6, 1e9, 1e15, 1e30, 1e37}) { double v = abs(n) * f; Y32.push_back(bc<u32>((float)v)); Y64.push_back(bc<u64>(v)); Y64.push_back(bc<u64>(v * v)); Y64.push_back(bc<u64>(v * 0.973 + 0.37)); }
    uniq(Y32); uniq(Y64); b_order<u32>("jnf", false, Y32, L); b_order<u32>("ynf", true, Y32, L); b_order<u64>("jn", false, Y64, L); b_order<u64>("yn", true, Y64, L); tick("large orders", t); t = elapsed();
    // extreme orders at tiny and huge arguments: the first kind underflows, the second overflows with the sign of the parity, huge arguments follow the asymptotic form
    auto ext = [&](auto tag) { typedef decltype(tag) B; typedef F<B> Y; std::string sf = sizeof(B) == 4 ? "f" : ""; std::vector<int> M = {INT32_MIN, INT32_MIN + 1, INT32_MIN + 2, -(1 << 30), -100001, -70000, 65536, 99999, (1 << 24) + 1, (1 << 30) - 1, 1 << 30, INT32_MAX - 1, INT32_MAX};
        Caller cj("jn" + sf), cy("yn" + sf); std::vector<B> Q = {0, Y::INF, Y::QNAN}; for (int e = 0; e < Y::BIAS - 30; e += sizeof(B) == 4 ? 1 : 7) for (B m : {(B)1, (B)Y::SIGM, (B)(Y::SIGM / 3)}) Q.push_back((B)(((B)e << Y::SIG) | m));
        parallel(Q.size(), [&](u64 i) { std::vector<B> x(M.size(), Q[i]), nx(M.size(), (B)(Q[i] | Y::SIGN)), j(M.size()), k(M.size()), y(M.size()), yn_(M.size()); if (cj.call(M.size(), x.data(), M.data(), nullptr, j.data(), nullptr) | cj.call(M.size(), nx.data(), M.data(), nullptr, k.data(), nullptr) | cy.call(M.size(), x.data(), M.data(), nullptr, y.data(), nullptr) | cy.call(M.size(), nx.data(), M.data(), nullptr, yn_.data(), nullptr)) return;
            for (size_t q = 0; q < M.size(); q++) { bool nan = Y::nan(Q[i]), inf = Y::inf(Q[i]), z = Q[i] == 0, neg = M[q] < 0 && (M[q] & 1); auto bad = [&](const std::string &op, B v, B got, const char *want) { violation(op, "arch", {hex(v), fmt("%d", M[q])}, hex(got), want); };
                if (nan ? !Y::nan(j[q]) : !Y::zero(j[q])) bad("jn" + sf, Q[i], j[q], "zero (underflow, or infinite argument)"); if (nan ? !Y::nan(k[q]) : !Y::zero(k[q])) bad("jn" + sf, nx[q], k[q], "zero (underflow, or infinite argument)");
                if (nan ? !Y::nan(y[q]) : inf ? !Y::zero(y[q]) : !(Y::inf(y[q]) && Y::neg(y[q]) == !neg)) bad("yn" + sf, Q[i], y[q], "infinity with the sign of the parity");
                if (!z && !inf && !Y::nan(yn_[q])) bad("yn" + sf, nx[q], yn_[q], "NaN for a negative argument"); }
            G.validated += 4 * M.size(); });
        G.states += 4 * Q.size() * M.size(); };
    ext((u32)0); ext((u64)0); tick("extreme orders", t);
}
