// Deterministic simulator core: PRNG, plans, per-run context, runtime seams.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <algorithm>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

// ---------------------------------------------------------------- PRNG
static inline u64 mix64(u64 z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed ^ 0x5851f42d4c957f2dull)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int range(int a, int b) { return b <= a ? a : a + (int)(next() % (u64)(b - a + 1)); } // inclusive
    bool chance(double p) { return u() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    double q(double a, double b, double step) { return std::floor(uni(a, b) / step) * step; } // quantised
};
struct Hash {
    u64 h = 0xcbf29ce484222325ull;
    void add(u64 v) { h = mix64(h ^ v); }
    void addf(double d) { u64 v; memcpy(&v, &d, 8); add(v); }
    void bytes(const void *p, size_t n) { const u8 *b = (const u8 *)p; u64 v; while (n >= 8) { memcpy(&v, b, 8); add(v); b += 8; n -= 8; } if (n) { v = 0; memcpy(&v, b, n); add(v ^ ((u64)n << 56)); } }
};

// ---------------------------------------------------------------- plans
struct Op { std::string k; std::vector<double> a; std::string s; double arg(size_t i, double d = 0) const { return i < a.size() ? a[i] : d; } int iarg(size_t i, int d = 0) const { return i < a.size() ? (int)a[i] : d; } };
struct Plan {
    std::string prop; u64 seed = 0;
    std::map<std::string, double> cfg;
    std::vector<Op> ops;
    bool explicit_sched = false;
    std::vector<std::pair<u64, int>> sw; // explicit schedule: at step -> thread
    double c(const char *k, double d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
    int ci(const char *k, int d = 0) const { return (int)c(k, d); }
    void add(const char *k, std::vector<double> a = {}, std::string s = "") { ops.push_back(Op{k, std::move(a), std::move(s)}); }
    std::string text() const;
    bool parse(const std::string &t, std::string &err);
};

// ---------------------------------------------------------------- results (shared memory between runner and simulated process)
enum { MAXSTAT = 64, MAXSTATES = 1024, MAXSW = 200000 };
struct Shared {
    volatile int done; volatile int failed; int nontrivial;
    char cls[96]; char msg[4000]; char note[160];
    u64 hash, steps; double simtime;
    int nstat; struct { char name[40]; u64 v; } stat[MAXSTAT];
    int nstates; u64 states[MAXSTATES];
    int nsw; struct { u64 step; int tid; } sw[MAXSW];
};
extern Shared *SH;

// ---------------------------------------------------------------- per-run services, usable in the simulated process
[[noreturn]] void sim_fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void sim_fail_raw(const char *cls, const char *msg);
void sim_note(const char *s);                 // what the run is doing, for crash reports
void sim_count(const char *name, u64 n = 1);  // fault kinds fired / probes hit
void sim_state(u64 h);                        // a state reached, for the distinct-state measure
void sim_hash(u64 v);                         // event log hash (determinism gate)
void sim_nontrivial();                        // this run exercised what the property is about
void sim_time(double dt);                     // simulated seconds
#define CHECK(cond, cls, ...) do { if (!(cond)) sim_fail(cls, __VA_ARGS__); } while (0)

// ---------------------------------------------------------------- scheduler / OpenMP runtime (rt.cpp)
struct SchedCfg { int omp_threads = 1; double p_access = 0; double p_hot = 0; u64 seed = 1; int ompProcs = 8; };
void rt_begin_run(const SchedCfg &c, const Plan &p);
void rt_end_run();
void rt_set_threads(int n);          // omp default team size for the calling (app) thread
int  rt_get_max_threads();
void rt_hot();                       // a likely interesting interleaving point (tile request start/end)
int  rt_tid();                       // simulated thread id
int  rt_live();                      // live simulated threads
u64  rt_steps();
void rt_run_threads(std::vector<std::function<void()>> fns); // concurrent application threads
bool rt_is_race_variant();
void rt_mem_fresh(void *p, size_t n);  // memory (re)issued: forget access history
void rt_access(const void *p, size_t n, bool write); // explicit access (bulk operations)
void rt_set_rand(int mode, u64 seed); // behaviour of rand() for the calling thread
int  rt_in_parallel();
void ambient_set(u64 s);             // what clocks and process ids start from

// ---------------------------------------------------------------- allocator seam (alloc.cpp)
struct AllocCfg { int fill = 0; u64 seed = 1; };
void al_begin_run(const AllocCfg &c);
void al_set_fill(int mode, u64 seed);
void al_fill(void *p, size_t n);               // garbage of the current kind
struct InLib { InLib(); ~InLib(); };           // marks calls into the library (accounting)
u64  al_live_blocks(); u64 al_live_bytes();    // library-owned memory (race variant accounts json-c too)
u64  al_calls();                                // allocation attempts by the library so far
void al_inject(u64 from, u64 count, double rate, u64 seed); // fail attempts [from, from+count) (absolute index) or at random
void al_inject_off();
u64  al_injected();                             // failures fired so far
void al_check_heap(const char *when);           // redzones and quarantine (race variant)
void al_set_cap(size_t bytes);                  // single allocation larger than this fails
std::string al_describe_live(int max);
bool al_accounts();
void pollute_stack(u64 seed);

// ---------------------------------------------------------------- property registry
struct Prop {
    const char *id; const char *variants;           // variants it runs in: "r", "a" or "ra"
    std::function<void(Rng &, Plan &, int tier)> gen;
    std::function<void(const Plan &)> exec;
};
std::vector<Prop> &props();
struct RegProp { RegProp(Prop p) { props().push_back(p); } };
int sim_failed(); // main.cpp: a failure was recorded
