// Allocator seam. Library objects call sim_malloc & co (symbols redefined at build time);
// in the race variant memory obtained by json-c on behalf of the library is accounted too.
#include "core.h"
#include "rt.h"
#include <sys/mman.h>
#include <errno.h>
#include <malloc.h>

static int g_fill = 0; static u64 g_fseed = 1, g_calls = 0, g_injected = 0, g_from = ~0ull, g_cnt = 0; static double g_rate = 0; static u64 g_rseed = 0; static size_t g_cap = ~(size_t)0;
static u64 g_fseq = 0; static u64 live_n = 0, live_b = 0, aseq = 0; static bool al_on = false;
static void stack_entry();
InLib::InLib() { if (rt_inlib() == 0) stack_entry(); rt_inlib()++; }
InLib::~InLib() { rt_inlib()--; }
static void garbage(void *p, size_t n, u64 key) {
    u8 *b = (u8 *)p;
    switch (g_fill) {
    case 0: return;
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xff, n); return;
    case 3: { u64 s = mix64(g_fseed + key); for (size_t i = 0; i + 8 <= n; i += 8) { s = mix64(s); memcpy(b + i, &s, 8); } for (size_t i = n & ~7ull; i < n; i++) b[i] = (u8)(s >> (8 * (i & 7))); return; }
    case 4: { u64 s = mix64(g_fseed + key); for (size_t i = 0; i + 4 <= n; i += 4) { s = mix64(s); float f = (float)((double)(s >> 40) / 8388608.0 * 2 - 2); memcpy(b + i, &f, 4); } for (size_t i = n & ~3ull; i < n; i++) b[i] = 1; return; } // plausible floats
    case 5: { for (size_t i = 0; i + 4 <= n; i += 4) { u32 v = 1 + (u32)((mix64(g_fseed + key + i)) % 5); memcpy(b + i, &v, 4); } for (size_t i = n & ~3ull; i < n; i++) b[i] = 1; return; } // small integers
    }
}
void al_fill(void *p, size_t n) { garbage(p, n, ++g_fseq); }
void al_set_fill(int m, u64 s) { g_fill = m; g_fseed = s; }
u64 al_calls() { return g_calls; }
void al_inject(u64 from, u64 cnt, double rate, u64 seed) { g_from = from; g_cnt = cnt; g_rate = rate; g_rseed = seed; }
void al_inject_off() { g_from = ~0ull; g_cnt = 0; g_rate = 0; }
u64 al_injected() { return g_injected; }
void al_set_cap(size_t b) { g_cap = b; }
static bool fail_now(size_t n) {
    u64 i = g_calls++;
    bool f = (i >= g_from && i - g_from < g_cnt) || (g_rate > 0 && (mix64(g_rseed + i) >> 11) * (1.0 / 9007199254740992.0) < g_rate);
    if (f) { g_injected++; sim_count("fault_alloc_failed"); sim_hash(0xa110c + i); }
    if (!f && n > g_cap) { g_injected++; sim_count("fault_alloc_too_big"); f = true; }
    if (f) errno = ENOMEM;
    return f;
}
u64 al_live_blocks() { return live_n; }
u64 al_live_bytes() { return live_b; }
static u64 g_entry;
void al_begin_run(const AllocCfg &c) { g_fill = c.fill; g_fseed = c.seed; al_on = true; g_fseq = 0; g_entry = 0; live_n = live_b = g_calls = g_injected = 0; al_inject_off(); g_cap = ~(size_t)0; }

void pollute_stack(u64 seed) { volatile u64 a[6000]; int save = g_fill; u64 sf = g_fseed; if (!g_fill) return; g_fseed = seed; garbage((void *)a, sizeof a, seed); g_fill = save; g_fseed = sf; asm volatile("" ::"r"(a) : "memory"); }

// what a call into the library finds on the stack below it is chosen by the run too, not left from harness code
__attribute__((noinline)) static void stack_entry() {
    if (!al_on) return;
    volatile u64 a[640]; u64 k = mix64(g_fseed ^ 0x57ac4 ^ (g_entry++ << 20));
    switch (g_fill) { case 0: case 1: memset((void *)a, 0, sizeof a); break; case 2: memset((void *)a, 0xff, sizeof a); break; default: garbage((void *)a, sizeof a, k); }
    asm volatile("" ::"r"(a) : "memory");
}

#ifdef SIM_RACE
// ---------------------------------------------------------------- own arena at a fixed address
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }
static char *const ABASE = (char *)0x290000000000ull; static const size_t ASIZE = 3ull << 30; static size_t atop = 0; static bool amapped = false;
struct Hdr { u32 magic, kind; u64 size; u64 seq; Hdr *next; }; // 32 bytes
enum : u32 { MAG_LIVE = 0xA11ACA7E, MAG_FREE = 0xF4EEF4EE };
static const u8 RZ = 0xFB, PZ = 0xDB; static const size_t RZN = 16;
struct Cls { Hdr *head = 0, *tail = 0; int n = 0; }; static Cls cls[64];
bool al_in_arena(const void *p) { return (char *)p >= ABASE && (char *)p < ABASE + ASIZE; }
bool al_accounts() { return true; }
static int cls_of(size_t n, size_t &cap) { // size classes: powers of two and 1.5x
    size_t c = 32; int k = 0; while (c < n) { size_t h = c + c / 2; k++; if (h >= n) { cap = h; return k; } c *= 2; k++; } cap = c; return k;
}
static void poison_bad(Hdr *h, const char *w) { sim_fail("heap-corruption", "%s: block %llu of %llu bytes was written after it was freed", w, (unsigned long long)h->seq, (unsigned long long)h->size); }
static void check_free(Hdr *h, const char *w) { u8 *b = (u8 *)(h + 1); for (size_t i = 0; i < std::min<size_t>(h->size, 4096); i++) if (b[i] != PZ) poison_bad(h, w); }
static void check_rz(Hdr *h, const char *w) { u8 *b = (u8 *)(h + 1) + h->size; for (size_t i = 0; i < RZN; i++) if (b[i] != RZ) sim_fail("heap-corruption", "%s: write past the end of block %llu of %llu bytes", w, (unsigned long long)h->seq, (unsigned long long)h->size); }
static void *ar_alloc(size_t n, u32 kind) {
    if (!amapped) { amapped = true; void *m = mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (m != ABASE) { fprintf(stderr, "arena\n"); abort(); } }
    size_t cap; int k = cls_of(n ? n : 1, cap); Hdr *h; Cls &c = cls[k];
    if (c.n > 24) { h = c.head; c.head = h->next; if (!c.head) c.tail = 0; c.n--; check_free(h, "allocation"); }
    else { size_t need = sizeof(Hdr) + cap + RZN; need = (need + 31) & ~31ull; if (atop + need > ASIZE || n > (1ull << 30)) { errno = ENOMEM; return 0; } h = (Hdr *)(ABASE + atop); atop += need; }
    h->magic = MAG_LIVE; h->kind = kind; h->size = n; h->seq = aseq++; h->next = 0; void *p = h + 1;
    rt_mem_fresh(p, n); garbage(p, n, h->seq); memset((u8 *)p + n, RZ, RZN); live_n++; live_b += n; return p;
}
static void ar_free(void *p) {
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == MAG_FREE) sim_fail("double-free", "block %llu of %llu bytes freed twice", (unsigned long long)h->seq, (unsigned long long)h->size);
    if (h->magic != MAG_LIVE) sim_fail("bad-free", "free of an address that is not the start of a block");
    check_rz(h, "free"); rt_access(p, h->size, true);
    h->magic = MAG_FREE; memset(p, PZ, h->size); live_n--; live_b -= h->size;
    size_t cap; int k = cls_of(h->size ? h->size : 1, cap); Cls &c = cls[k]; h->next = 0; if (c.tail) c.tail->next = h; else c.head = h; c.tail = h; c.n++;
}
void al_check_heap(const char *w) {
    size_t o = 0; while (o < atop) { Hdr *h = (Hdr *)(ABASE + o); size_t cap; cls_of(h->size ? h->size : 1, cap); size_t need = (sizeof(Hdr) + cap + RZN + 31) & ~31ull;
        if (h->magic == MAG_LIVE) check_rz(h, w); else if (h->magic == MAG_FREE) check_free(h, w); else sim_fail("heap-corruption", "%s: block header overwritten", w); o += need; }
}
std::string al_describe_live(int max) { std::string s; size_t o = 0; while (o < atop && max) { Hdr *h = (Hdr *)(ABASE + o); size_t cap; cls_of(h->size ? h->size : 1, cap); if (h->magic == MAG_LIVE) { char b[80]; snprintf(b, sizeof b, "[#%llu %llu bytes%s] ", (unsigned long long)h->seq, (unsigned long long)h->size, h->kind ? " json" : ""); s += b; max--; } o += (sizeof(Hdr) + cap + RZN + 31) & ~31ull; } return s; }
extern "C" {
void *sim_malloc(size_t n) { rt_hot(); if (fail_now(n)) return 0; return ar_alloc(n, 0); }
void *sim_calloc(size_t a, size_t b) { rt_hot(); size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; if (fail_now(n)) return 0; void *p = ar_alloc(n, 0); if (p) memset(p, 0, n); return p; }
void sim_free(void *p) { if (!p) return; rt_hot(); if (al_in_arena(p)) ar_free(p); else __libc_free(p); }
void *sim_realloc(void *p, size_t n) { rt_hot(); if (fail_now(n)) return 0; if (!p) return ar_alloc(n, 0); if (!al_in_arena(p)) return __libc_realloc(p, n); Hdr *h = (Hdr *)p - 1; if (h->magic != MAG_LIVE) sim_fail("bad-free", "realloc of a freed block"); void *q = ar_alloc(n, h->kind); if (!q) return 0; memcpy(q, p, std::min<size_t>(n, h->size)); ar_free(p); return q; }
// global interposition: allocations made while a simulated thread is inside the library (json-c)
#ifdef SIM_GEGL
#define ACCOUNT 0 // memory of GEGL itself stays outside
#else
#define ACCOUNT (al_on && rt_inlib() > 0)
#endif
void *malloc(size_t n) { if (ACCOUNT) return ar_alloc(n, 1); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (ACCOUNT) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = ar_alloc(n, 1); if (p) memset(p, 0, n); return p; } return __libc_calloc(a, b); }
void free(void *p) { if (al_in_arena(p)) { ar_free(p); return; } __libc_free(p); }
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n); if (!al_in_arena(p)) return __libc_realloc(p, n);
    Hdr *h = (Hdr *)p - 1; if (h->magic != MAG_LIVE) sim_fail("bad-free", "realloc of a freed block"); void *q = ar_alloc(n, h->kind); if (!q) return 0; memcpy(q, p, std::min<size_t>(n, h->size)); ar_free(p); return q;
}
}
#else
bool al_in_arena(const void *) { return false; }
bool al_accounts() { return true; }
void al_check_heap(const char *) {}
std::string al_describe_live(int) { return ""; }
static std::map<void *, size_t> *blocks;
static void *note(void *p, size_t n) { if (p) { if (!blocks) blocks = new std::map<void *, size_t>; (*blocks)[p] = n; live_n++; live_b += n; garbage(p, n, aseq++); } return p; }
static void unnote(void *p) { if (!blocks) return; auto it = blocks->find(p); if (it != blocks->end()) { live_n--; live_b -= it->second; blocks->erase(it); } }
extern "C" {
// as much memory as the other variant's arena has, so that a run that asks for more is refused it instead of filling the machine
static bool too_much(size_t n) { if (n <= (1ull << 30) && (u64)live_b + n <= (2ull << 30)) return false; errno = ENOMEM; return true; }
void *sim_malloc(size_t n) { rt_hot(); if (fail_now(n) || too_much(n)) return 0; return note(malloc(n), n); }
void *sim_calloc(size_t a, size_t b) { rt_hot(); size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; if (fail_now(n) || too_much(n)) return 0; void *p = note(malloc(n), n); if (p) memset(p, 0, n); return p; }
void sim_free(void *p) { if (!p) return; rt_hot(); unnote(p); free(p); }
void *sim_realloc(void *p, size_t n) { rt_hot(); if (fail_now(n) || too_much(n)) return 0; size_t old = 0; if (p && blocks) { auto it = blocks->find(p); if (it != blocks->end()) old = it->second; } void *q = malloc(n ? n : 1); if (!q) return 0; note(q, n); if (p) { memcpy(q, p, std::min(n, old)); unnote(p); free(p); } return q; }
}
#endif
void sim_free_cpp(void *p) { sim_free(p); }
