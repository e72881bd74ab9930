#include "core.h"
#include <tuple>
#include "json.h"
Ctx G; std::map<std::string, std::string> SHIM_PATHS;
thread_local Slot *SLOT = nullptr;
const size_t CH = 8192;
const Op OPS[] = {
#include "ops.inc"
};
const int NOPS = sizeof OPS / sizeof *OPS;
const Op *find_op(const std::string &n) { for (int i = 0; i < NOPS; i++) if (n == OPS[i].name) return &OPS[i]; return nullptr; }
std::string fmt(const char *f, ...) { char b[1024]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

void *Shim::sym(const std::string &op, bool must) const {
    void *p = nullptr; if (auto lk = (void *(*)(const char *))dlsym(h, "vb_lookup")) p = lk(op.c_str()); else p = dlsym(h, ("vb_" + op).c_str());
    if (!p && must) { fprintf(stderr, "missing vb_%s in %s\n", op.c_str(), path.c_str()); exit(3); }
    return p;
}
Shim *shim(const std::string &cfg) {
    static std::map<std::string, Shim *> m; static std::mutex mu; std::lock_guard<std::mutex> l(mu);
    auto it = m.find(cfg); if (it != m.end()) return it->second;
    auto p = SHIM_PATHS.find(cfg);
    if (p == SHIM_PATHS.end()) { fprintf(stderr, "no shim for configuration %s\n", cfg.c_str()); exit(3); }
    Shim *s = new Shim; s->name = cfg; s->path = p->second;
    s->h = dlopen(s->path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!s->h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    ((void (*)())dlsym(s->h, "vb_init"))();
    return m[cfg] = s;
}
double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - G.t0).count(); }
void note(const std::string &s) { std::lock_guard<std::mutex> l(G.mu); G.notes.push_back(s); }
void sample(const std::string &s) { std::lock_guard<std::mutex> l(G.mu); if (G.samples.size() < 60) G.samples.push_back(s); }

static std::vector<std::unique_ptr<Known>> KN; static bool known_loaded = false;
static u128 parse_u128(const std::string &s) {
    u128 r = 0; for (size_t i = (s.size() > 2 && s[1] == 'x') ? 2 : 0; i < s.size(); i++) { char c = s[i]; r = r * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return r;
}
static void load_known() {
    if (known_loaded) return; known_loaded = true;
    FILE *f = fopen("/verif/known_findings.txt", "r"); if (!f) return;
    char *line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, f) > 0) {
        std::string s = line; if (s.empty() || s[0] != (char)123) continue;
        JV v = json_parse(s); if (v.str("status") != "known") continue;
        auto k = std::make_unique<Known>(); k->prop = v.str("property"); k->op = v.str("op"); k->observed = v.str("observed"); k->what = v.str("what");
        k->cfg = v.str("config"); k->lo = parse_u128(v.str("lo")); k->hi = parse_u128(v.str("hi")); k->lo2 = v.str("lo2"); k->hi2 = v.str("hi2");
        KN.push_back(std::move(k));
    }
    free(line); fclose(f);
}
static std::string dir_replay() { std::string d = "/verif/build/replays"; (void)!system(("mkdir -p " + d).c_str()); return d; }
static bool in_range(const std::string &x, const std::string &lo, const std::string &hi) {
    if (lo.empty()) return true;
    if (lo[0] == '0' && lo.size() > 1 && lo[1] == 'x') { u128 v = parse_u128(x); return v >= parse_u128(lo) && v <= parse_u128(hi); }
    return atoll(x.c_str()) >= atoll(lo.c_str()) && atoll(x.c_str()) <= atoll(hi.c_str());
}
bool violation(const std::string &op, const std::string &cfg, const std::vector<std::string> &in, const std::string &obs, const std::string &exp, u128 key) {
    std::lock_guard<std::mutex> l(G.mu); load_known();
    u128 k0 = in.empty() ? key : parse_u128(in[0]);
    for (auto &k : KN) if (k->prop == G.prop && (k->op == op || k->op == "*") && (k->cfg.empty() || k->cfg == cfg)
        && (k->observed.empty() || k->observed == obs) && k0 >= k->lo && k0 <= k->hi && (k->lo2.empty() || (in.size() > 1 && in_range(in[1], k->lo2, k->hi2)))) { k->count++; return false; }
    u64 id = G.nviol++;
    if (id < 20) {
        std::string t = fmt("op=%s config=%s inputs=", op.c_str(), cfg.c_str());
        for (auto &i : in) t += i + " "; t += "observed=" + obs + " expected=" + exp;
        G.first_viol.push_back(t);
        std::string path = dir_replay() + fmt("/%s-%llu.txt", G.prop.c_str(), (unsigned long long)id);
        FILE *f = fopen(path.c_str(), "w");
        if (f) {
            fprintf(f, "property %s\nop %s\nconfig %s\n", G.prop.c_str(), op.c_str(), cfg.c_str());
            for (auto &i : in) fprintf(f, "input %s\n", i.c_str());
            fprintf(f, "observed %s\nexpected %s\nreplay with: /verif/run.sh replay %s\n", obs.c_str(), exp.c_str(), path.c_str()); fclose(f);
        }
        printf("violation: %s\n", t.c_str());
        if (id == 0) printf("VIOLATION property=%s replay=%s\n", G.prop.c_str(), path.c_str());
        fflush(stdout);
    }
    return true;
}
bool too_many() { return G.nviol.load() > 200; }

// ------------------------------------------------------------------ workers, watchdog, crash handler
static const int MAXT = 256; static Slot slots[MAXT];
static std::string elem(const Slot &s, int k, size_t i) {
    int w = s.op ? s.op->w : 64; Cls c = s.op->c; 
    if (k == 1 && (c == CTI || c == CIT)) return fmt("%d", ((const i32 *)s.in[k])[i]);
    switch (w) { case 16: return hex(((const u16 *)s.in[k])[i]); case 32: return hex(((const u32 *)s.in[k])[i]); case 64: return hex(((const u64 *)s.in[k])[i]); default: return hex(((const u128 *)s.in[k])[i]); }
}
static void fatal_report(Slot &s, const char *what) {
    if (!s.op || !s.active) return;
    std::vector<std::string> in; size_t i = s.prog; if (i >= s.n) i = s.n ? s.n - 1 : 0;
    for (int k = 0; k < s.nin; k++) in.push_back(elem(s, k, i));
    violation(s.op->name, s.cfg, in, what, "a returned value");
}
static void on_sig(int sig) {
    static std::atomic<int> once{0};
    if (once++) { for (;;) pause(); }
    if (SLOT && SLOT->active) {
        fatal_report(*SLOT, fmt("crash (signal %d)", sig).c_str());
        if (G.nviol) { finish(); _exit(1); }
    }
    fprintf(stderr, "harness crashed: signal %d\n", sig); if (G.nviol) _exit(1); _exit(4);
}
static void install() {
    static bool done = false; if (done) return; done = true;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}) signal(s, on_sig);
    std::thread([] {
        struct S { size_t prog; u64 epoch; int same; }; std::vector<S> last(MAXT, S{0, 0, 0});
        for (;;) {
            usleep(500000);
            for (int t = 0; t < MAXT; t++) {
                Slot &s = slots[t];
                if (!s.active) { last[t].same = 0; continue; }
                size_t p = s.prog; u64 e = s.epoch;
                if (p == last[t].prog && e == last[t].epoch) {
                    if (++last[t].same > 40) { fatal_report(s, "no return within 20 s"); if (G.nviol) { finish(); _exit(1); } last[t].same = 0; }
                } else last[t] = {p, e, 0};
            }
        }
    }).detach();
}
void parallel(u64 nchunks, const std::function<void(u64)> &f) {
    install();
    std::atomic<u64> next{0}; std::vector<std::thread> ts;
    for (int t = 0; t < G.nthreads; t++) ts.emplace_back([&, t] {
        SLOT = &slots[t]; SLOT->active = false;
        for (u64 c; (c = next++) < nchunks && !too_many();) f(c);
        SLOT = nullptr;
    });
    for (auto &t : ts) t.join();
    if (too_many()) { G.exhaustive = false; fflush(stdout); finish(); fflush(stdout); _exit(1); }   // enough is known
}
static int nin_of(Cls c) { switch (c) { case CB: case CTI: case CIT: case CTTI: return 2; case CT: return 3; default: return 1; } }
int Caller::call(size_t n, const void *a, const void *b, const void *c, void *o1, void *o2) const {
    Slot local; Slot *s = SLOT ? SLOT : &local; if (!SLOT) install();
   
    int w = op->w / 8, nin = nin_of(op->c), panics = 0; size_t off = 0;
    bool i2 = op->c == CTI || op->c == CIT; int w2 = i2 ? 4 : w, wo = op->c == CUI ? 4 : w, wo2 = op->c == CUTT ? w : 4;
    s->op = op; s->cfg = this->s->name.c_str(); s->nin = nin;
    while (off < n) {
        const char *pa = (const char *)a + off * w, *pb = b ? (const char *)b + off * w2 : nullptr, *pc = c ? (const char *)c + off * w : nullptr;
        char *q1 = (char *)o1 + off * wo, *q2 = o2 ? (char *)o2 + off * wo2 : nullptr;
        s->in[0] = pa; s->in[1] = pb; s->in[2] = pc; s->n = n - off; s->prog = 0; s->epoch++; s->active = true;
        int r;
        switch (op->c) {
            case CU: case CUI: r = ((F2)fn)(n - off, &s->prog, pa, q1); break;
            case CB: case CTI: case CIT: r = ((F3)fn)(n - off, &s->prog, pa, pb, q1); break;
            case CUTT: case CUTI: r = ((F3)fn)(n - off, &s->prog, pa, q1, q2); break;
            case CT: r = ((F4)fn)(n - off, &s->prog, pa, pb, pc, q1); break;
            default: r = ((F4)fn)(n - off, &s->prog, pa, pb, q1, q2); break;
        }
        s->active = false;
        if (r == 0) break;
        size_t i = s->prog; panics++;
        static auto lp = (void (*)(char *))nullptr; (void)lp;
        char msg[513] = {0}; auto g = (void (*)(char *))dlsym(this->s->h, "vb_last_panic"); if (g) g(msg);
        std::vector<std::string> in; for (int k = 0; k < nin; k++) in.push_back(elem(*s, k, i));
        std::string m = msg; for (auto &ch : m) if (ch == '\n') ch = ' ';
        violation(op->name, this->s->name, in, "panic: " + m, "a returned value");
        memset(q1 + i * wo, 0, wo); if (q2) memset(q2 + i * wo2, 0, wo2);
        off += i + 1;
    }
    G.transitions += n;
    return panics;
}
// ------------------------------------------------------------------ literals
static std::vector<std::pair<std::string, u64>> LITS; static bool lits_loaded = false;
static void load_lits() {
    if (lits_loaded) return; lits_loaded = true;
    for (const char *p : {"/verif/data/literals.txt", "/verif/build/literals.txt"}) {
        FILE *f = fopen(p, "r"); if (!f) continue;
        char fn[256]; unsigned long long v; char kind[8];
        while (fscanf(f, "%255s %7s %llx", fn, kind, &v) == 3) LITS.push_back({std::string(kind) + " " + fn, v});
        fclose(f);
    }
}
static bool file_match(const std::string &key, const std::string &files) {
    if (files.empty()) return true;
    std::string fn = key.substr(key.find(' ') + 1);
    size_t p = 0;
    while (p < files.size()) { size_t q = files.find(',', p); if (q == std::string::npos) q = files.size(); if (fn == files.substr(p, q - p)) return true; p = q + 1; }
    return false;
}
const std::vector<std::pair<char, u64>> &newlits() {   // new in its own file: a value copied from another file counts
    static std::vector<std::pair<char, u64>> v; static std::once_flag o;
    std::call_once(o, [] {
        typedef std::tuple<std::string, char, u64> K;
        auto rd = [](const char *p) { std::set<K> s; FILE *f = fopen(p, "r"); if (!f) return s; char fn[256], kind[8]; unsigned long long x; while (fscanf(f, "%255s %7s %llx", fn, kind, &x) == 3) s.insert({fn, kind[0], (u64)x}); fclose(f); return s; };
        auto a = rd("/verif/data/literals.txt"), b = rd("/verif/build/literals.txt"); std::set<std::pair<char, u64>> s, old;
        for (auto &p : a) old.insert({std::get<1>(p), std::get<2>(p)});
        for (int pass = 0; pass < 2; pass++) for (auto &p : b) if (!a.count(p)) { std::pair<char, u64> k{std::get<1>(p), std::get<2>(p)}; if ((pass == 0) == !old.count(k) && (k.second > 8 || k.first != 'i') && s.size() < 64 && s.insert(k).second) v.push_back(k); }
    });
    return v;
}
const std::vector<u64> &newlit64() {
    static std::vector<u64> v; static std::once_flag o;
    std::call_once(o, [] {
        for (auto &p : newlits()) { u64 x = p.second; if (p.first == 'g') { double d = bc<float>((u32)x); x = bc<u64>(d); } v.push_back(x); if (p.first == 'i') { double d = (double)x; v.push_back(bc<u64>(d)); } }
        uniq(v);
    });
    return v;
}
std::vector<i32> new_ints() {
    std::vector<i32> v; for (auto &p : newlits()) { double d = p.first == 'f' ? bc<double>(p.second) : p.first == 'g' ? (double)bc<float>((u32)p.second) : (double)p.second; if (p.first == 'i' && p.second <= 0xffffffffu) for (int k = -2; k <= 2; k++) { v.push_back((i32)((u32)p.second + k)); v.push_back((i32)(0 - (u32)p.second + k)); } else if (d == d && fabs(d) < 2e9) for (int k = -2; k <= 2; k++) { v.push_back((i32)d + k); v.push_back(-(i32)d + k); } }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
const std::vector<u64> &lit64(const std::string &files) {
    static std::map<std::string, std::vector<u64>> cache; static std::mutex mu; std::lock_guard<std::mutex> l(mu); load_lits();
    auto it = cache.find(files); if (it != cache.end()) return it->second;
    std::vector<u64> v;
    for (auto &p : LITS) if (file_match(p.first, files)) {
        u64 x = p.second; char k = p.first[0];
        if (k == 'f') { v.push_back(x); }
        else if (k == 'g') { double d = bc<float>((u32)x); v.push_back(bc<u64>(d)); }
        else { // integer literal: as raw bits, as a high word, as an integer value, as a power of two exponent
            v.push_back(x);
            if (x <= 0xffffffffu) { v.push_back(x << 32); if (x) v.push_back((x << 32) - 1); v.push_back((x << 32) | 0xffffffff); double f = bc<float>((u32)x); v.push_back(bc<u64>(f)); }
            double d = (double)x; v.push_back(bc<u64>(d));
        }
    }
    uniq(v); return cache[files] = v;
}
const std::vector<u32> &lit32(const std::string &files) {
    static std::map<std::string, std::vector<u32>> cache; static std::mutex mu; std::lock_guard<std::mutex> l(mu); load_lits();
    auto it = cache.find(files); if (it != cache.end()) return it->second;
    std::vector<u32> v;
    for (auto &p : LITS) if (file_match(p.first, files)) {
        u64 x = p.second; char k = p.first[0];
        if (k == 'f') { float f = (float)bc<double>(x); v.push_back(bc<u32>(f)); }
        else if (k == 'g') v.push_back((u32)x);
        else { v.push_back((u32)x); v.push_back((u32)(x >> 32)); float f = (float)x; v.push_back(bc<u32>(f)); if (x > 0xffffffffu) { f = (float)bc<double>(x); v.push_back(bc<u32>(f)); } }
    }
    uniq(v); return cache[files] = v;
}
// ------------------------------------------------------------------ evidence
static std::string js(const std::string &s) {
    std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\"";
}
int finish() {
    load_known();
    std::string path = "/verif/evidence/" + G.prop + ".json"; (void)!system("mkdir -p /verif/evidence");
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror("evidence"); _exit(3); }
    const char *seed = getenv("VERIF_SEED");
    fprintf(f, "{\n \"property\": %s, \"tier\": %s, \"seed\": %d, \"level\": \"model_checking\",\n \"coverage\": {\n", js(G.prop).c_str(), js(G.tier).c_str(), seed ? atoi(seed) : 1);
    fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"adjudicated_exactly\": %llu,\n  \"exhaustive\": %s,\n", (unsigned long long)G.states, (unsigned long long)G.transitions, (unsigned long long)G.validated, (unsigned long long)G.adjudicated, G.exhaustive ? "true" : "false");
    fprintf(f, "  \"states_meaning\": \"distinct input states (operation x configuration x input) enumerated\",\n  \"transitions_meaning\": \"executions of the real compiled implementation\",\n  \"traces_validated_meaning\": \"executions whose result was compared with the reference model\",\n");
    auto mp = [&](const char *nm, const std::map<std::string, u64> &m) {
        fprintf(f, "  \"%s\": {", nm); bool first = true; for (auto &p : m) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(f, "},\n"); };
    mp("states_per_operation", G.per_op); mp("worst_distance_in_representable_steps", G.worst); mp("distinct_outcomes", G.outcomes);
    auto arr = [&](const char *nm, const std::vector<std::string> &v, const char *tail) {
        fprintf(f, "  \"%s\": [", nm); size_t tot = 0; for (size_t i = 0; i < v.size() && tot < 20000; i++) { fprintf(f, "%s\n   %s", i ? "," : "", js(v[i]).c_str()); tot += v[i].size(); } fprintf(f, "]%s\n", tail); };
    arr("spaces", G.notes, ","); 
    std::vector<std::string> kn; for (auto &k : KN) if (k->count) kn.push_back(k->op + ": " + k->what + fmt(" (%llu occurrences in this run)", (unsigned long long)k->count));
    arr("known_findings_seen", kn, ","); arr("violating_states", G.first_viol, ","); arr("samples", G.samples, "");
    fprintf(f, " },\n"); arr("assumptions", G.assumptions, ",");
    fprintf(f, " \"wall_s\": %.2f, \"violations\": %llu\n}\n", elapsed(), (unsigned long long)G.nviol); fclose(f);
    for (auto &k : KN) if (k->count) printf("KNOWN-FINDING: property=%s %s %s\n", G.prop.c_str(), k->op.c_str(), k->what.c_str());
    printf("%s %s: states=%llu transitions=%llu validated=%llu adjudicated=%llu violations=%llu wall=%.1fs\n", G.prop.c_str(), G.tier.c_str(), (unsigned long long)G.states, (unsigned long long)G.transitions, (unsigned long long)G.validated, (unsigned long long)G.adjudicated, (unsigned long long)G.nviol, elapsed());
    for (auto &p : G.worst) printf("  worst %s: %llu\n", p.first.c_str(), (unsigned long long)p.second);
    fflush(stdout);
    return G.nviol ? 1 : 0;
}
