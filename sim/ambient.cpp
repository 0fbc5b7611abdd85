// Ambient sources of nondeterminism: wall clocks, process identity, libc random generators.
// The library does not use them today; if it ever does, the simulator decides what they return
// (and C09 varies the answers between two otherwise equal runs).
#include "core.h"
#include "rt.h"
#include <time.h>
#include <sys/time.h>
#include <errno.h>
static u64 amb = 0;
void ambient_set(u64 s) { amb = mix64(s) >> 8; }
static u64 tick() { sim_count("ambient_clock_read"); amb += 1000003; return amb; }
extern "C" {
int sim_rand(void);
void *sim_malloc(size_t);
long sim_random(void) { return sim_rand(); }
void sim_srandom(unsigned) {}
int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return (*s >> 1) & RAND_MAX; }
double sim_drand48(void) { return sim_rand() / (RAND_MAX + 1.0); }
long sim_lrand48(void) { return sim_rand(); }
time_t sim_time(time_t *t) { time_t v = (time_t)(tick() / 1000000000ull); if (t) *t = v; return v; }
clock_t sim_clock(void) { return (clock_t)(tick() / 1000); }
int sim_gettimeofday(struct timeval *tv, void *) { u64 t = tick() / 1000; tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0; }
int sim_clock_gettime(clockid_t, struct timespec *ts) { u64 t = tick(); ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0; }
int sim_getpid(void) { return 2 + (int)(tick() % 30000); }
long sim_g_get_monotonic_time(void) { return (long)(tick() / 1000); }
long sim_g_get_real_time(void) { return (long)(tick() / 1000); }
unsigned sim_g_random_int(void) { return (unsigned)sim_rand() * 2u; }
double sim_g_random_double(void) { return sim_rand() / (RAND_MAX + 1.0); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_aligned_alloc(size_t a, size_t n) { if (a > 32) sim_fail("harness", "aligned_alloc(%zu) not modelled", a); return sim_malloc(n); }
void *sim_memalign(size_t a, size_t n) { return sim_aligned_alloc(a, n); }
int sim_posix_memalign(void **p, size_t a, size_t n) { *p = sim_aligned_alloc(a, n); return *p ? 0 : ENOMEM; }
void sim_exit(int c) { sim_fail("process-exit", "the library called exit(%d)", c); }
void sim_abort(void) { sim_fail("abort", "the library called abort()"); }
}
