// Explorer core: domains (finite, enumerated completely), worker pool, shim loading,
// violation / known-finding / evidence reporting, crash and hang detection.
#pragma once
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>
#include <dlfcn.h>
#include <unistd.h>

typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
typedef int32_t i32; typedef int64_t i64; typedef __int128 i128;
typedef __float128 f128; typedef long double ld;

template <class To, class From> static inline To bc(From f) { static_assert(sizeof(To) == sizeof(From)); To t; memcpy(&t, &f, sizeof t); return t; }

// ---------------------------------------------------------------- formats
template <class B> struct Fmt;
template <> struct Fmt<u16> { enum { BITS = 16, SIG = 10, EXPB = 5 }; };
template <> struct Fmt<u32> { enum { BITS = 32, SIG = 23, EXPB = 8 }; };
template <> struct Fmt<u64> { enum { BITS = 64, SIG = 52, EXPB = 11 }; };
template <> struct Fmt<u128> { enum { BITS = 128, SIG = 112, EXPB = 15 }; };
template <class B> struct F : Fmt<B> {
    static constexpr int SIG = Fmt<B>::SIG, BITS = Fmt<B>::BITS, EXPB = Fmt<B>::EXPB;
    static constexpr int EMASK = (1 << EXPB) - 1, BIAS = EMASK >> 1, EMIN = 1 - BIAS;
    static constexpr B SIGN = (B)((B)1 << (BITS - 1)), ABS = (B)~SIGN, SIGM = (B)(((B)1 << SIG) - 1), INF = (B)((B)EMASK << SIG);
    static constexpr B QNAN = (B)(INF | ((B)1 << (SIG - 1))), MAXF = (B)(INF - 1), ONE = (B)((B)BIAS << SIG);
    static bool nan(B x) { return (B)(x & ABS) > INF; }
    static bool inf(B x) { return (B)(x & ABS) == INF; }
    static bool fin(B x) { return (B)(x & ABS) < INF; }
    static bool zero(B x) { return (B)(x & ABS) == 0; }
    static bool neg(B x) { return (x & SIGN) != 0; }
    static int ex(B x) { return (int)((x >> SIG) & EMASK); }
    static bool snan(B x) { return nan(x) && !(x & ((B)1 << (SIG - 1))); }
    // order-preserving map to a signed integer, -0 and +0 both to 0
    static i128 ord(B x) { i128 a = (i128)(B)(x & ABS); return neg(x) ? -a : a; }
};
template <class B> static inline std::string hex(B x) {
    char b[48];
    if (sizeof(B) == 16) snprintf(b, 48, "0x%016llx%016llx", (unsigned long long)((u128)x >> 64), (unsigned long long)x);
    else snprintf(b, 48, "0x%0*llx", (int)sizeof(B) * 2, (unsigned long long)x);
    return b;
}
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- shims
enum Cls { CU, CB, CT, CUTT, CUTI, CUI, CTI, CIT, CTTI };
struct Op { const char *name; Cls c; int w; };
extern const Op OPS[]; extern const int NOPS;
const Op *find_op(const std::string &n);
struct Shim {
    std::string name, path; void *h = nullptr;
    void *sym(const std::string &op, bool must = true) const;
};
extern std::map<std::string, std::string> SHIM_PATHS;   // config -> path
Shim *shim(const std::string &cfg);                     // loads on demand
// n calls; ptrs: inputs then outputs. Returns number completed; a panic at i leaves i < n.
typedef int (*F2)(size_t, volatile size_t *, const void *, void *);
typedef int (*F3)(size_t, volatile size_t *, const void *, const void *, const void *);
typedef int (*F4)(size_t, volatile size_t *, const void *, const void *, const void *, const void *);

// ---------------------------------------------------------------- run context
struct Known { std::string prop, op, cfg, observed, what; u128 lo, hi; std::string lo2, hi2; std::set<std::string> hit; std::atomic<u64> count{0}; };
struct Ctx {
    std::string prop, tier; bool thorough = false;
    int nthreads = 8;
    std::atomic<u64> states{0}, transitions{0}, validated{0}, adjudicated{0};
    std::atomic<u64> nviol{0};
    std::mutex mu;
    std::vector<std::string> samples, notes;
    std::vector<std::string> first_viol;       // text of recorded violations
    std::map<std::string, u64> per_op;         // states per op
    std::map<std::string, u64> worst;          // per op worst distance seen
    std::map<std::string, u64> outcomes;       // named outcome classes (vacuity guard)
    std::vector<std::string> assumptions;
    std::chrono::steady_clock::time_point t0;
    bool exhaustive = true;
};
extern Ctx G;
double elapsed();
void note(const std::string &s);
void sample(const std::string &s);
// One violating execution. op/cfg/in describe the input state; obs/exp the outputs.
// Returns true when it counts as a violation, false when the known-findings file lists it.
bool violation(const std::string &op, const std::string &cfg, const std::vector<std::string> &in,
               const std::string &obs, const std::string &exp, u128 key = 0);
bool too_many();

// ---------------------------------------------------------------- parallel exploration
struct Slot {   // what a worker is executing right now; read by the watchdog and the signal handler
    volatile size_t prog; const Op *op; const char *cfg; const void *in[3]; int nin; size_t n; std::atomic<u64> epoch; std::atomic<bool> active;
};
extern thread_local Slot *SLOT;
void parallel(u64 nchunks, const std::function<void(u64)> &f);

// Call op on arrays; panics are reported as violations and the element skipped (out left zeroed, flag set in bad).
struct Caller {
    const Op *op; const Shim *s; void *fn;
    Caller(const std::string &o, const std::string &cfg = "arch") { op = find_op(o); if (!op) { fprintf(stderr, "no op %s\n", o.c_str()); exit(3); } s = shim(cfg); fn = s->sym(o); }
    // returns count of panics
    int call(size_t n, const void *a, const void *b, const void *c, void *o1, void *o2) const;
    int u(size_t n, const void *x, void *o) const { return call(n, x, nullptr, nullptr, o, nullptr); }
    int b(size_t n, const void *x, const void *y, void *o) const { return call(n, x, y, nullptr, o, nullptr); }
};

// ---------------------------------------------------------------- finite domains
template <class B> struct Dom {
    u64 n = 0; std::string desc;
    std::function<void(u64, size_t, B *)> fill;
};
template <class B> Dom<B> dom_all() {
    Dom<B> d; d.n = sizeof(B) == 2 ? 65536ull : 4294967296ull; d.desc = "every bit pattern";
    d.fill = [](u64 s, size_t c, B *o) { for (size_t i = 0; i < c; i++) o[i] = (B)(s + i); };
    return d;
}
template <class B> Dom<B> dom_vec(std::vector<B> v, std::string desc) {
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    auto p = std::make_shared<std::vector<B>>(std::move(v));
    Dom<B> d; d.n = p->size(); d.desc = desc;
    d.fill = [p](u64 s, size_t c, B *o) { memcpy(o, p->data() + s, c * sizeof(B)); };
    return d;
}
// sign x exponents [e0,e1] x every value of the top k significand bits x low-bit patterns
template <class B> Dom<B> dom_lattice(int e0, int e1, int k, std::vector<B> low, int signs = 2, std::string nm = "") {
    typedef F<B> T; int sh = T::SIG - k;
    for (auto &l : low) l &= (B)(((B)1 << sh) - 1);
    std::sort(low.begin(), low.end()); low.erase(std::unique(low.begin(), low.end()), low.end());
    u64 P = low.size(), K = 1ull << k, E = e1 - e0 + 1;
    Dom<B> d; d.n = (u64)signs * E * K * P;
    d.desc = fmt("%s%d sign(s) x biased exponents %d..%d x all 2^%d top significand bits x %llu low patterns", nm.c_str(), signs, e0, e1, k, (unsigned long long)P);
    d.fill = [=](u64 s, size_t c, B *o) {
        for (size_t i = 0; i < c; i++) {
            u64 v = s + i; u64 p = v % P; v /= P; u64 kk = v % K; v /= K; u64 e = v % E; v /= E;
            o[i] = (B)(((B)v << (T::BITS - 1)) | ((B)(e0 + e) << T::SIG) | ((B)kk << sh) | low[p]);
        }
    };
    return d;
}
template <class B> std::vector<B> low_patterns(int np) {
    // simplest first; cut to the requested number
    B ones = (B)~(B)0; std::vector<B> r = {0, ones, 1, (B)(ones / 3), (B)(ones / 3 * 2), (B)(ones - 1), 2, (B)((B)1 << (F<B>::SIG / 2)), (B)(ones / 5), (B)(ones / 7), (B)(ones / 17), (B)(ones / 257)};
    if ((int)r.size() > np) r.resize(np);
    return r;
}
extern const size_t CH;
template <class B, class Fn> void explore(const Dom<B> &d, Fn fn) {   // fn(const B*, size_t)
    parallel((d.n + CH - 1) / CH, [&](u64 c) {
        static thread_local std::vector<B> buf; buf.resize(CH);
        u64 s = c * CH; size_t n = (size_t)std::min<u64>(CH, d.n - s);
        d.fill(s, n, buf.data()); fn(buf.data(), n);
    });
    if (!too_many()) G.states += d.n;
}
// alphabets
template <class B> void add_neigh(std::vector<B> &v, B x, int r) { // x and its r neighbours on each side (bit patterns), both signs left alone
    for (int k = -r; k <= r; k++) v.push_back((B)(x + (B)(i64)k));
}
template <class B> void uniq(std::vector<B> &v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
const std::vector<u64> &lit64(const std::string &files = "");   // f64 patterns of literals in the sources (committed snapshot + current tree)
const std::vector<u32> &lit32(const std::string &files = "");
const std::vector<u64> &newlit64();   // constants of the current sources that the committed snapshot does not have
const std::vector<std::pair<char, u64>> &newlits();   // the same with their kind: i integer, f binary64, g binary32 pattern
std::vector<i32> new_ints();          // such constants as integer arguments, with neighbours and negated
int finish();    // writes evidence, prints, returns exit status
