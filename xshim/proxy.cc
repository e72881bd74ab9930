// A shim that forwards every batch to a worker process running the code built for another target.
// Compiled once per target with -DWORKER='"path"' and, for wasm, -DSCRIPT / -DPREFIX.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <set>
#include <string>
#include <mutex>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <vector>
#include <utility>
enum Cls { CU, CB, CT, CUTT, CUTI, CUI, CTI, CIT, CTTI };
struct Op { const char *name; Cls c; int w; };
static const Op OPS[] = {
#include "../harness/ops.inc"
};
enum { N = sizeof OPS / sizeof *OPS };
struct Head { char op[32]; uint32_t n, nin, nout, sz[4]; };
#ifndef PREFIX
#define PREFIX "vb_"
#endif
struct Proc {
    int in = -1, out = -1; pid_t pid = 0;
    void start() {
        int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); }
        fcntl(a[1], F_SETPIPE_SZ, 1 << 18); fcntl(b[1], F_SETPIPE_SZ, 1 << 18);
        pid = fork(); if (pid < 0) { perror("fork"); _exit(3); }
        if (!pid) { dup2(a[0], 0); dup2(b[1], 1);
#ifdef SCRIPT
            execlp("node", "node", SCRIPT, WORKER, PREFIX, (char *)0);
#else
            execl(WORKER, WORKER, (char *)0);
#endif
            _exit(127); }
        close(a[0]); close(b[1]); in = a[1]; out = b[0];
    }
    void stop() { if (pid) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = 0; } }
};
// workers outlive the threads that use them; they end when this process ends (end of input)
static std::mutex pool_mu; static std::vector<Proc> pool;
struct Lease : Proc { bool got = false; void get() { if (got) return; got = true; std::lock_guard<std::mutex> l(pool_mu); if (!pool.empty()) { *(Proc *)this = pool.back(); pool.pop_back(); } } ~Lease() { if (pid) { std::lock_guard<std::mutex> l(pool_mu); pool.push_back(*this); } } };
static thread_local Lease P;
static bool wr(const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(P.in, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool rd(void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(P.out, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static char msg[512];
// elements completed; n when all of them are
static size_t run(const Op &o, size_t n, const void *const *in, void *const *out, const uint32_t *sz, int nin, int nout) {
    P.get(); if (!P.pid) P.start();
    Head h; memset(&h, 0, sizeof h); snprintf(h.op, sizeof h.op, "vb_%s", o.name); h.n = n; h.nin = nin; h.nout = nout; memcpy(h.sz, sz, sizeof h.sz);
    static thread_local std::string buf; buf.assign((const char *)&h, sizeof h);
    for (int k = 0; k < nin; k++) { size_t b = n * sz[k]; buf.append((const char *)in[k], b); buf.append(((b + 15) & ~15ull) - b, 0); }
    uint32_t done = 0; if (!wr(buf.data(), buf.size()) || !rd(&done, 4)) { P.stop(); snprintf(msg, sizeof msg, "the worker process ended"); return 0; }
    if (done == ~0u) { fprintf(stderr, "no %s in the worker\n", h.op); _exit(3); }
    if (done < n) { P.stop(); snprintf(msg, sizeof msg, "panic in the code built for this target"); return done; }
    for (int k = nin; k < nin + nout; k++) { size_t b = n * sz[k]; char pad[16]; if (!rd(out[k - nin], b) || !rd(pad, ((b + 15) & ~15ull) - b)) { P.stop(); return 0; } }
    return n;
}
static int go(int i, size_t n, volatile size_t *prog, void *const *q) {
    const Op &o = OPS[i]; uint32_t w = o.w / 8, sz[4] = {w, w, w, w}; int nin = 1, nout = 1;
    switch (o.c) {
    case CU: break; case CB: nin = 2; break; case CT: nin = 3; break; case CUTT: nout = 2; break; case CUTI: nout = 2; sz[2] = 4; break; case CUI: sz[1] = 4; break;
    case CTI: case CIT: nin = 2; sz[1] = 4; break; case CTTI: nin = 2; nout = 2; sz[3] = 4; break; }
    size_t off = 0;
    while (off < n) {
        size_t m = n - off < 8192 ? n - off : 8192; const void *in[4]; void *out[4];
        for (int k = 0; k < nin; k++) in[k] = (const char *)q[k] + off * sz[k];
        for (int k = 0; k < nout; k++) out[k] = (char *)q[nin + k] + off * sz[nin + k];
        *prog = off; size_t d = run(o, m, in, out, sz, nin, nout);
        if (d < m) { if (d) { char keep[512]; memcpy(keep, msg, 512); run(o, d, in, out, sz, nin, nout); memcpy(msg, keep, 512); } *prog = off + d; return 1; }
        off += m;
    }
    *prog = n; return 0;
}
template <int I> static int tramp(size_t n, volatile size_t *p, void *a, void *b, void *c, void *d) { void *q[4] = {a, b, c, d}; return go(I, n, p, q); }
typedef int (*Fn)(size_t, volatile size_t *, void *, void *, void *, void *);
template <int... I> static Fn pick(int k, std::integer_sequence<int, I...>) { static const Fn T[] = {tramp<I>...}; return T[k]; }
static std::set<std::string> have; static std::once_flag once;
extern "C" void *vb_lookup(const char *op) {
    std::call_once(once, [] { FILE *f = fopen(NAMES, "r"); char b[64]; while (f && fscanf(f, "%63s", b) == 1) have.insert(b); if (f) fclose(f); });
    if (!have.count(std::string(PREFIX) + op)) return nullptr;
    for (int i = 0; i < N; i++) if (!strcmp(OPS[i].name, op)) return (void *)pick(i, std::make_integer_sequence<int, N>());
    return nullptr;
}
extern "C" void vb_init() { signal(SIGPIPE, SIG_IGN); }
extern "C" void vb_last_panic(char *o) { memcpy(o, msg, 512); }
