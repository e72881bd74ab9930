#include "checks.h"
#include "oracle.h"
typedef void (*Check)();
// re-execute one recorded state on the current build: exit 1 when the recorded result comes out again
static u128 num(const std::string &s) { if (s.compare(0, 2, "0x")) return (u128)(i128)atoll(s.c_str()); u128 r = 0; for (size_t i = 2; i < s.size(); i++) { char c = s[i]; r = r * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return r; }
static int replay(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); return 3; }
    char *line = nullptr; size_t cap = 0; std::string op, cfg = "arch", obs, exp, prop; std::vector<std::string> in;
    while (getline(&line, &cap, f) > 0) { std::string l = line; while (!l.empty() && l.back() == '\n') l.pop_back(); size_t sp = l.find(' '); if (sp == std::string::npos) continue; std::string k = l.substr(0, sp), v = l.substr(sp + 1);
        if (k == "op") op = v; else if (k == "config") cfg = v; else if (k == "input") in.push_back(v); else if (k == "observed") obs = v; else if (k == "expected") exp = v; else if (k == "property") prop = v; }
    fclose(f); const Op *o = find_op(op); if (!o || in.empty()) { printf("%s records a relation, not one call; run the check itself: /verif/run.sh %s quick\n", path, prop.c_str()); return 3; }
    if (!SHIM_PATHS.count(cfg)) cfg = SHIM_PATHS.begin()->first;
    alignas(16) u128 a[3] = {0, 0, 0}, r1 = 0, r2 = 0; for (size_t i = 0; i < in.size() && i < 3; i++) a[i] = num(in[i]);
    G.prop = "replay"; Caller c(op, cfg); int p = c.call(1, &a[0], &a[1], &a[2], &r1, &r2); if (p) return 1;
    int w = o->c == CUI ? 32 : o->w; std::string got = w == 16 ? hex((u16)r1) : w == 32 ? hex((u32)r1) : w == 64 ? hex((u64)r1) : hex(r1);
    printf("%s[%s](", op.c_str(), cfg.c_str()); for (auto &i : in) printf(" %s", i.c_str()); printf(" ) = %s", got.c_str()); if (o->c == CUTT || o->c == CUTI || o->c == CTTI) printf(", second result %s", o->c == CUTT ? (w == 32 ? hex((u32)r2) : hex((u64)r2)).c_str() : fmt("%d", (i32)r2).c_str());
    printf("\nrecorded %s, expected %s\n", obs.c_str(), exp.c_str()); return obs.compare(0, got.size(), got) == 0 ? 1 : 0;
}
int main(int argc, char **argv) {
    G.t0 = std::chrono::steady_clock::now();
    if (argc < 3) return 3;
    G.prop = argv[1]; G.tier = argv[2]; G.thorough = G.tier == "thorough"; G.nthreads = std::max(1u, std::thread::hardware_concurrency());
    std::vector<std::string> rest;
    for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) SHIM_PATHS[a.substr(0, e)] = a.substr(e + 1); else rest.push_back(a); }
    if (G.prop == "replay") return replay(argv[2]);
    static const std::map<std::string, Check> M = {{"C01", c_sqrt}, {"C02", c_fma}, {"C03", c_round}, {"C04", c_rem}, {"C05", c_minmax}, {"C06", c_sign}, {"C07", c_fdim}, {"C08", c_scale}, {"C09", c_next},
        {"C10", c_cbrt_hypot}, {"C11", c_trig32}, {"C12", c_trig64}, {"C13", c_itrig}, {"C14", c_exp}, {"C15", c_log}, {"C16", c_pow}, {"C17", c_hyp}, {"C18", c_erf}, {"C19", c_gamma}, {"C20", c_bessel},
        {"C21", c_special}, {"C22", c_identity}, {"C23", c_total}, {"C24", c_pure}, {"C25", c_config}, {"C26", c_config}, {"C27", c_config}, {"C35", c_config}};
    auto it = M.find(G.prop); if (it != M.end()) it->second();
    if (G.prop == "X1") { for (auto &r : rest) group({r.c_str()}, true, true); }
    if (G.prop == "X2") { for (auto &r : rest) group({r.c_str()}, false, true); }
    return finish();
}
