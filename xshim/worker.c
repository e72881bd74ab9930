// Static 32-bit worker: reads requests on fd 0, answers on fd 1. No libc.
typedef unsigned u32; typedef unsigned long long u64;
static int sc(int n, int a, const void *b, int c) { int r; __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
static void quit(int c) { for (;;) sc(1, c, 0, 0); }
static void rd(char *p, u32 n) { while (n) { int k = sc(3, 0, p, n); if (k <= 0) quit(0); p += k; n -= k; } }
static void wr(const char *p, u32 n) { while (n) { int k = sc(4, 1, p, n); if (k <= 0) quit(0); p += k; n -= k; } }
extern u32 VX_PROG; extern char *vx_buf(void);
typedef int (*Fn)(u32, void *, void *, void *, void *, void *);
#define X(n) extern int n();
#include "tab.inc"
#undef X
static const struct { const char *n; Fn f; } TAB[] = {
#define X(n) {#n, (Fn)n},
#include "tab.inc"
#undef X
};
static int same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static struct { char op[32]; u32 n, nin, nout, sz[4]; } H;   // sz: bytes per element of every array, inputs first
void vx_panic(void) { u32 r = VX_PROG; wr((char *)&r, 4); quit(1); }
void vx_main(void) {
    for (;;) {
        rd((char *)&H, sizeof H); Fn f = 0; for (u32 i = 0; i < sizeof TAB / sizeof *TAB; i++) if (same(TAB[i].n, H.op)) f = TAB[i].f;
        char *p = vx_buf(), *q[4] = {0, 0, 0, 0}; u32 k = 0, in = 0, out = 0;
        for (; k < H.nin; k++) { q[k] = p + in; in += (H.n * H.sz[k] + 15) & ~15u; }
        for (; k < H.nin + H.nout; k++) { q[k] = p + in + out; out += (H.n * H.sz[k] + 15) & ~15u; }
        rd(p, in); if (!f) { u32 r = ~0u; wr((char *)&r, 4); continue; }
        f(H.n, 0, q[0], q[1], q[2], q[3]);
        wr((char *)&VX_PROG, 4); wr(p + in, out);
    }
}
__asm__(".globl _start\n_start:\n xor %ebp,%ebp\n and $-16,%esp\n call vx_main\n");
// what compiled Rust code may call
void *memcpy(void *d, const void *s, u32 n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, u32 n) { char *a = d; while (n--) *a++ = c; return d; }
void *memmove(void *d, const void *s, u32 n) { char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
int memcmp(const void *x, const void *y, u32 n) { const unsigned char *a = x, *b = y; for (; n--; a++, b++) if (*a != *b) return *a - *b; return 0; }
int bcmp(const void *x, const void *y, u32 n) { return memcmp(x, y, n); }
