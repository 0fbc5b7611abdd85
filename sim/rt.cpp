// Simulated OpenMP runtime, application threads, scheduler and race detector.
// Real pthreads are used only as coroutines: exactly one runs at a time and every
// switch is decided here from the seed (or from an explicit list when replaying).
#include "core.h"
#include "rt.h"
#include <deque>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unistd.h>

enum { NT = 96 };
static const size_t STK = 4u << 20;
typedef u32 VC[NT];
struct Lock { int owner = -1; int depth = 0; VC vc; Lock() { memset(vc, 0, sizeof vc); } };
struct Team {
    int n = 1; bool outer = false; int members[NT]; int arrived = 0, running = 0; u64 gen = 0; int home = 0; int fork_parent = 0;
    u64 singles = 0; std::map<u64, bool> single_taken;
    struct Loop { long next, end, incr, chunk; int kind; int done = 0; long inflight = 0; std::deque<int> turn; VC ovc = {}; }; std::map<u64, Loop> loops;
    void (*fn)(void *) = 0; void *data = 0; VC bar, fin;
};
struct Th {
    int tid = 0; sem_t sem; pthread_t pt; bool created = false; int state = 0; // 0 idle 1 runnable 2 blocked
    Team *team = 0; int team_id = 0; int home = 0; VC vc; std::function<void()> job;
    int nthreads = 1; int inlib = 0; u64 rnd = 1; int rmode = 0; u64 loopseq = 0, singleseq = 0, barseq = 0; u64 weight = 1;
    char *stk = 0; Team::Loop *cur_loop = 0; u64 cur_loop_id = 0;
};
static Th T[NT]; static Th *cur = &T[0]; static int live = 1; static bool active = false;
static Rng srng(1); static SchedCfg sc; static bool explicit_sw = false; static std::vector<std::pair<u64, int>> esw; static size_t esi = 0;
static u64 step = 0, next_sw = ~0ull, multi_regions = 0, nswitch = 0; static u64 slice_bias = 0;
static std::unordered_map<u64, Lock *> *locks; static std::unordered_map<u64, VC *> *atomics;

struct NoLib { int s; NoLib() : s(cur->inlib) { cur->inlib = 0; } ~NoLib() { cur->inlib = s; } };
int &rt_inlib() { return cur->inlib; }
int rt_tid() { return cur->tid; }
int rt_live() { return live; }
u64 rt_steps() { return step; }
int rt_home() { return cur->home; }
u64 rt_switches() { return nswitch; }
u64 rt_regions() { return multi_regions; }

// ---------------------------------------------------------------- race detector
struct Cell { u32 epoch; u32 pc; u8 tid, mask, wr, at; };
struct ShPage { Cell c[512][4]; u64 base; };
static std::unordered_map<u64, ShPage *> *pages; static std::vector<ShPage *> *pagelist, *pagefree; static u64 lastkey = ~0ull; static ShPage *lastpage = 0;
static bool race_on = false;
static ShPage *page_of(u64 a, bool make) {
    u64 k = a >> 12; if (k == lastkey) return lastpage;
    NoLib nl; auto it = pages->find(k); ShPage *p = it == pages->end() ? 0 : it->second;
    if (!p && make) {
        if (!pagefree->empty()) { p = pagefree->back(); pagefree->pop_back(); } else { p = (ShPage *)mmap(0, sizeof(ShPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) sim_fail("harness", "shadow memory exhausted"); }
        p->base = k; (*pages)[k] = p; pagelist->push_back(p);
    }
    if (p) { lastkey = k; lastpage = p; }
    return p;
}
static void shadow_clear_all() { for (auto p : *pagelist) { memset(p, 0, sizeof *p); pagefree->push_back(p); } pagelist->clear(); pages->clear(); lastkey = ~0ull; lastpage = 0; }
extern "C" char __executable_start, etext;
static const char *region_of(u64 a) {
    for (int i = 0; i < NT; i++) if (T[i].stk && a >= (u64)T[i].stk && a < (u64)T[i].stk + STK) return "stack";
    if (al_in_arena((void *)a)) return "heap";
    return "other memory (static or tile store)";
}
static void race(u64 a, const Cell &c, bool wr, u64 pc) {
    sim_fail("race", "unsynchronised %s by thread %d and %s by thread %d of %s at pc=0x%llx pc=0x%x", wr ? "write" : "read", cur->tid, c.wr ? "write" : "read", c.tid, region_of(a), (unsigned long long)pc, c.pc);
}
static inline void shadow_word(u64 a, u8 mask, bool wr, bool at, u64 pc) {
    ShPage *p = page_of(a, true); Cell *c = p->c[(a >> 3) & 511]; Cell *slot = 0; u32 *vc = cur->vc;
    for (int i = 0; i < 4; i++) {
        if (!c[i].epoch) { if (!slot) slot = &c[i]; continue; }
        if (c[i].tid == cur->tid) { if (c[i].mask == mask && c[i].wr == wr && c[i].at == at) slot = &c[i]; continue; }
        if (!(c[i].mask & mask) || !(c[i].wr | wr) || (c[i].at && at)) continue;
        if (c[i].epoch > vc[c[i].tid]) race(a, c[i], wr, pc);
        else if (c[i].mask == mask) { if (!slot || !slot->epoch) slot = &c[i]; } // ordered before us: replace
    }
    if (!slot) slot = &c[(step ^ (a >> 3)) & 3];
    slot->epoch = vc[cur->tid]; slot->pc = (u32)pc; slot->tid = cur->tid; slot->mask = mask; slot->wr = wr; slot->at = at;
}
static inline void shadow(const void *p, size_t n, bool wr, bool at, u64 pc) {
    u64 a = (u64)p, e = a + n;
    while (a < e) { u64 w = a & ~7ull; u64 hi = std::min(e, w + 8); u8 m = (u8)(((1u << (hi - a)) - 1) << (a - w)); shadow_word(w, m, wr, at, pc); a = hi; }
}
void rt_mem_fresh(void *p, size_t n) {
    if (!race_on || live < 2) return;
    u64 a = (u64)p & ~7ull, e = (u64)p + n;
    while (a < e) { ShPage *q = page_of(a, false); u64 pe = (a | 4095) + 1; if (q) for (u64 w = a; w < std::min(e, pe); w += 8) memset(q->c[(w >> 3) & 511], 0, sizeof q->c[0]); a = pe; }
}

// ---------------------------------------------------------------- scheduler
static void record_sw(int tid) { if (SH->nsw < MAXSW) { SH->sw[SH->nsw].step = step; SH->sw[SH->nsw].tid = tid; SH->nsw++; } nswitch++; }
static void go(Th *t) { Th *me = cur; if (t == me) return; sim_hash(0x5000 + t->tid + (step << 16)); record_sw(t->tid); cur = t; sem_post(&t->sem); while (sem_wait(&me->sem)) {} }
static Th *draw(bool others) {
    u64 tot = 0; for (int i = 0; i < NT; i++) if (T[i].state == 1 && !(others && &T[i] == cur)) tot += T[i].weight;
    if (!tot) return 0; u64 r = srng.next() % tot;
    for (int i = 0; i < NT; i++) if (T[i].state == 1 && !(others && &T[i] == cur)) { if (r < T[i].weight) return &T[i]; r -= T[i].weight; }
    return 0;
}
static void next_gap() { if (sc.p_access <= 0) next_sw = ~0ull; else { double u = srng.u(); double g = std::log(1 - u) / std::log(1 - std::min(0.999, sc.p_access)); next_sw = step + 1 + (u64)std::min(1e12, g); } }
static inline Th *explicit_target() { while (esi < esw.size() && esw[esi].first < step) esi++; if (esi < esw.size() && esw[esi].first == step) { int t = esw[esi++].second; if (t >= 0 && t < NT && T[t].state == 1) return &T[t]; } return 0; }
static inline void yield_at(bool hot) {
    if (live < 2 || !active) return;
    step++;
    if (explicit_sw) { if (esi < esw.size() && esw[esi].first <= step) { Th *t = explicit_target(); if (t) go(t); } return; }
    if (step >= next_sw || (hot && sc.p_hot > 0 && srng.u() < sc.p_hot)) {
        if (step >= next_sw) next_gap();
        Th *t = draw(true); if (t) go(t);
        if (srng.chance(0.02)) { Th *v = &T[srng.range(0, NT - 1)]; v->weight = srng.chance(0.5) ? 1 : srng.range(1, 400); } // stalled / favoured workers
    }
}
void rt_hot() { yield_at(true); }
// current thread cannot continue (blocked or finished): somebody else must run
static void forced() {
    step++; Th *t = explicit_sw ? explicit_target() : draw(false);
    if (!t) for (int i = 0; i < NT && !t; i++) if (T[i].state == 1) t = &T[i];
    if (!t) sim_fail("deadlock", "no runnable thread");
    go(t);
}
static void join_vc(VC a, const VC b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(Lock *l) {
    yield_at(true);
    while (l->owner != -1 && l->owner != cur->tid) { cur->state = 2; sim_count("sched_lock_contended"); int o = l->owner; (void)o; forced(); }
    l->owner = cur->tid; l->depth++; join_vc(cur->vc, l->vc);
}
static void release(Lock *l) {
    if (l->owner != cur->tid) sim_fail("omp-misuse", "lock released by a thread that does not hold it");
    memcpy(l->vc, cur->vc, sizeof l->vc); cur->vc[cur->tid]++;
    if (--l->depth == 0) { l->owner = -1; for (int i = 0; i < NT; i++) if (T[i].state == 2) T[i].state = 1; }
    yield_at(true);
}
static Lock *lock_for(u64 key) { NoLib nl; Lock *&l = (*locks)[key]; if (!l) l = new Lock; return l; }

static void *th_main(void *p) {
    Th *me = (Th *)p;
    for (;;) { while (sem_wait(&me->sem)) {} if (me->job) { me->job(); me->job = nullptr; } me->state = 0; live--; me->weight = 1; for (int i = 0; i < NT; i++) if (T[i].state == 2) T[i].state = 1;
        // hand the baton on without waiting for it back: this thread is idle now
        step++; Th *t = explicit_sw ? explicit_target() : draw(false); if (!t) for (int i = 0; i < NT && !t; i++) if (T[i].state == 1) t = &T[i];
        if (!t) sim_fail("deadlock", "no runnable thread at thread exit");
        record_sw(t->tid); cur = t; sem_post(&t->sem); }
    return 0;
}
static Th *spawn(std::function<void()> job) {
    Th *t = 0; for (int i = 1; i < NT && !t; i++) if (T[i].state == 0) t = &T[i];
    if (!t) sim_fail("harness", "out of simulated threads");
    if (!t->created) {
        t->created = true; sem_init(&t->sem, 0, 0); t->tid = t - T;
        t->stk = (char *)mmap((void *)(0x2a0000000000ull + (u64)t->tid * (STK + 65536)), STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t->stk, STK);
        if (pthread_create(&t->pt, &a, th_main, t)) sim_fail("harness", "cannot create thread");
        pthread_attr_destroy(&a);
    }
    t->job = std::move(job); t->state = 1; t->inlib = 0; live++;
    t->loopseq = t->singleseq = 0; t->weight = 1;
    join_vc(t->vc, cur->vc); t->vc[t->tid]++;
    return t;
}
void rt_run_threads(std::vector<std::function<void()>> fns) {
    int pending = fns.size(); Th *me = cur; VC fin; memset(fin, 0, sizeof fin);
    for (size_t i = 0; i < fns.size(); i++) {
        int home = i + 1; u64 rs = mix64(cur->rnd + home); int rm = cur->rmode; int nt = cur->nthreads;
        Th *t = spawn([&, i] { fns[i](); join_vc(fin, cur->vc); pending--; }); t->home = home; t->team = 0; t->team_id = 0; t->nthreads = nt; t->rnd = rs; t->rmode = rm;
    }
    me->vc[me->tid]++; next_gap();
    while (pending) { me->state = 2; forced(); }
    join_vc(me->vc, fin);
    me->vc[me->tid]++; if (live == 1) shadow_clear_all();
}
void rt_begin_run(const SchedCfg &c, const Plan &p) {
    static bool once = false; if (!once) { once = true; locks = new std::unordered_map<u64, Lock *>; atomics = new std::unordered_map<u64, VC *>; pages = new std::unordered_map<u64, ShPage *>; pagelist = new std::vector<ShPage *>; pagefree = new std::vector<ShPage *>; sem_init(&T[0].sem, 0, 0); T[0].created = true; }
    sc = c; srng = Rng(c.seed ^ 0x5ced); cur = &T[0]; cur->state = 1; cur->vc[0] = 1; cur->nthreads = c.omp_threads; live = 1; active = true; race_on = rt_is_race_variant(); step = 0; SH->nsw = 0;
    for (int i = 0; i < NT; i++) T[i].weight = 1;
    explicit_sw = p.explicit_sched; esw = p.sw; esi = 0;
}
void rt_main_stack(void *p) { T[0].stk = (char *)p; }
void rt_end_run() { SH->steps = step; active = false; }
void rt_set_threads(int n) { cur->nthreads = n; }
int rt_get_max_threads() { return cur->nthreads; }
int rt_in_parallel() { return cur->team && cur->team->n > 1; }
void rt_access(const void *p, size_t n, bool w) { if (live < 2 || !race_on) return; yield_at(false); shadow(p, n, w, false, (u64)__builtin_return_address(0)); }

// ---------------------------------------------------------------- rand()
void rt_set_rand(int mode, u64 seed) { cur->rmode = mode; cur->rnd = seed; }
extern "C" int sim_rand(void) {
    Th *h = cur; if (cur->team && cur->team->n > 1) h = &T[cur->team->members[0]];
    switch (h->rmode) {
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: h->rnd ^= 1ull << 63; return (h->rnd >> 63) ? RAND_MAX : 0;
    case 4: return RAND_MAX / 2;
    default: h->rnd += 0x9e3779b97f4a7c15ull; return (int)(mix64(h->rnd) & RAND_MAX);
    }
}
extern "C" void sim_srand(unsigned s) { cur->rnd = s; }

// ---------------------------------------------------------------- OpenMP (GOMP ABI)
static void run_team(void (*fn)(void *), void *data, int n, std::function<void(Team *)> init) {
    Th *me = cur; int inl = me->inlib; me->inlib = 0; Team tm; tm.outer = me->team && (me->team->n > 1 || me->team->outer);
    tm.n = n; tm.home = me->home; memset(tm.bar, 0, sizeof tm.bar); memset(tm.fin, 0, sizeof tm.fin); if (init) init(&tm);
    Team *save = me->team; int save_id = me->team_id; u64 sl = me->loopseq, ss = me->singleseq; Team::Loop *scl = me->cur_loop;
    me->team = &tm; me->team_id = 0; me->loopseq = me->singleseq = 0; me->cur_loop = 0; tm.members[0] = me->tid; tm.running = n;
    for (int i = 1; i < n; i++) {
        Th *t = spawn([&tm, fn, data, inl] { cur->inlib = inl; fn(data); cur->inlib = 0; join_vc(tm.fin, cur->vc); cur->team = 0; tm.running--; });
        t->team = &tm; t->team_id = i; t->home = me->home; t->nthreads = me->nthreads; t->cur_loop = 0; tm.members[i] = t->tid;
    }
    me->vc[me->tid]++; if (n > 1) { multi_regions++; sim_count("sched_parallel_regions"); next_gap(); }
    me->inlib = inl; if (n > 1) yield_at(true);
    fn(data);
    { NoLib nl2; tm.running--; while (tm.running) { me->state = 2; forced(); }
      join_vc(me->vc, tm.fin); // not the workers' own state: another team may be running on those threads by now
      me->vc[me->tid]++; me->team = save; me->team_id = save_id; me->loopseq = sl; me->singleseq = ss; me->cur_loop = scl;
      if (live == 1) shadow_clear_all(); tm.loops.clear(); tm.single_taken.clear(); }
}
static int team_size(unsigned req) { if (cur->team && (cur->team->n > 1 || cur->team->outer)) return 1; int n = req ? (int)req : cur->nthreads; return std::max(1, std::min(n, 64)); }
typedef Team::Loop Loop;
static Loop mkloop(long s, long e, long inc, long chunk, int kind) { Loop l; l.next = s; l.end = e; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; l.kind = kind; l.inflight = 0; l.done = 0; return l; }
static Team *team_or_solo() { static Team solo; if (cur->team) return cur->team; solo.n = 1; return &solo; }
static bool loop_next(long *is, long *ie) {
    yield_at(true); Loop *l = cur->cur_loop; if (!l) return false; long left = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
    if (left <= 0) return false;
    long c = l->chunk; if (l->kind == 2) c = std::max(c, left / team_or_solo()->n); if (l->kind == 0) c = std::max(1l, (left + team_or_solo()->n - 1) / team_or_solo()->n);
    c = std::min(c, left); *is = l->next; l->next += c * l->incr; *ie = l->next; if ((l->incr > 0 && *ie > l->end) || (l->incr < 0 && *ie < l->end)) *ie = l->end; return true;
}
static bool loop_start(long s, long e, long inc, long chunk, int kind, long *is, long *ie) {
    NoLib nl; Team *t = team_or_solo(); u64 id = cur->loopseq++; if (!cur->team) id = mix64(id + step); auto it = t->loops.find(id); if (it == t->loops.end()) it = t->loops.emplace(id, mkloop(s, e, inc, chunk, kind)).first;
    cur->cur_loop = &it->second; return loop_next(is, ie);
}
static void barrier() {
    Team *t = cur->team; if (!t || t->n < 2) return; yield_at(true); NoLib nl;
    join_vc(t->bar, cur->vc); u64 g = t->gen; if (++t->arrived == t->n) { t->arrived = 0; t->gen++; for (int i = 0; i < NT; i++) if (T[i].state == 2) T[i].state = 1; } else while (t->gen == g) { cur->state = 2; forced(); }
    join_vc(cur->vc, t->bar); cur->vc[cur->tid]++;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, team_size(n), nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { int k = team_size(n); run_team(fn, data, k, nullptr); return k; }
#define PLOOP(NAME, KIND, ARGS, CHUNK) void GOMP_parallel_loop_##NAME ARGS { (void)flags; run_team(fn, data, team_size(n), [=](Team *t) { t->loops.emplace(0, mkloop(s, e, inc, CHUNK, KIND)); for (int i = 0; i < 1; i++) {} }); }
#define PARGS (void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk, unsigned flags)
#define PARGS0 (void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned flags)
PLOOP(static, 0, PARGS, chunk) PLOOP(dynamic, 1, PARGS, chunk) PLOOP(guided, 2, PARGS, chunk) PLOOP(nonmonotonic_dynamic, 1, PARGS, chunk) PLOOP(nonmonotonic_guided, 2, PARGS, chunk)
PLOOP(runtime, 1, PARGS0, 1) PLOOP(nonmonotonic_runtime, 1, PARGS0, 1) PLOOP(maybe_nonmonotonic_runtime, 1, PARGS0, 1)
#define LOOP(NAME, KIND) \
 bool GOMP_loop_##NAME##_start(long s, long e, long inc, long chunk, long *is, long *ie) { return loop_start(s, e, inc, chunk, KIND, is, ie); } \
 bool GOMP_loop_##NAME##_next(long *is, long *ie) { if (!cur->cur_loop && cur->team) { auto it = cur->team->loops.find(0); if (it != cur->team->loops.end()) { cur->cur_loop = &it->second; if (!cur->loopseq) cur->loopseq = 1; } } return loop_next(is, ie); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
#define LOOPR(NAME) \
 bool GOMP_loop_##NAME##_start(long s, long e, long inc, long *is, long *ie) { return loop_start(s, e, inc, 1, 1, is, ie); } \
 bool GOMP_loop_##NAME##_next(long *is, long *ie) { return GOMP_loop_dynamic_next(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
typedef unsigned long long ull; // loops over unsigned 64-bit indices; the library's ranges fit a long
#define LOOPU(NAME, KIND) \
 bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull chunk, ull *is, ull *ie) { return loop_start((long)s, (long)e, up ? (long)inc : -(long)(-inc), (long)chunk, KIND, (long *)is, (long *)ie); } \
 bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); }
LOOPU(static, 0) LOOPU(dynamic, 1) LOOPU(guided, 2) LOOPU(nonmonotonic_dynamic, 1) LOOPU(nonmonotonic_guided, 2)
#define LOOPUR(NAME) \
 bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull inc, ull *is, ull *ie) { return loop_start((long)s, (long)e, up ? (long)inc : -(long)(-inc), 1, 1, (long *)is, (long *)ie); } \
 bool GOMP_loop_ull_##NAME##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); }
LOOPUR(runtime) LOOPUR(nonmonotonic_runtime) LOOPUR(maybe_nonmonotonic_runtime)
void GOMP_taskyield(void) { yield_at(true); }
void GOMP_loop_end(void) { cur->cur_loop = 0; barrier(); }
void GOMP_loop_end_nowait(void) { cur->cur_loop = 0; }
void GOMP_barrier(void) { barrier(); }
void GOMP_critical_start(void) { acquire(lock_for(1)); }
void GOMP_critical_end(void) { release(lock_for(1)); }
void GOMP_critical_name_start(void **p) { acquire(lock_for((u64)p)); }
void GOMP_critical_name_end(void **p) { release(lock_for((u64)p)); }
void GOMP_atomic_start(void) { acquire(lock_for(2)); }
void GOMP_atomic_end(void) { release(lock_for(2)); }
// ordered loops: chunks take turns in the order in which they were handed out
void GOMP_ordered_start(void) { yield_at(true); NoLib nl; Loop *l = cur->cur_loop; if (!l || l->turn.empty()) return; while (l->turn.front() != cur->tid) { cur->state = 2; forced(); } join_vc(cur->vc, l->ovc); }
void GOMP_ordered_end(void) { Loop *l = cur->cur_loop; if (l) { join_vc(l->ovc, cur->vc); cur->vc[cur->tid]++; } yield_at(true); }
static void turn_in(Loop *l, bool more) { NoLib nl; if (more) l->turn.push_back(cur->tid); }
static void turn_out(Loop *l) { NoLib nl; if (!l || l->turn.empty()) return; while (!l->turn.empty() && l->turn.front() != cur->tid) { cur->state = 2; forced(); } l->turn.pop_front(); for (int i = 0; i < NT; i++) if (T[i].state == 2) T[i].state = 1; }
#define LOOPO(NAME, KIND) \
 bool GOMP_loop_ordered_##NAME##_start(long s, long e, long inc, long chunk, long *is, long *ie) { bool m = loop_start(s, e, inc, chunk, KIND, is, ie); turn_in(cur->cur_loop, m); return m; } \
 bool GOMP_loop_ordered_##NAME##_next(long *is, long *ie) { Loop *l = cur->cur_loop; turn_out(l); bool m = loop_next(is, ie); turn_in(l, m); return m; }
LOOPO(static, 0) LOOPO(dynamic, 1) LOOPO(guided, 2)
bool GOMP_loop_ordered_runtime_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_ordered_dynamic_start(s, e, inc, 1, is, ie); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return GOMP_loop_ordered_dynamic_next(is, ie); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_loop_end_cancel(void) { cur->cur_loop = 0; barrier(); return false; }
bool GOMP_sections_end_cancel(void) { cur->cur_loop = 0; barrier(); return false; }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long s, long e, long) { // one task does it all
    char raw[8192]; char *q = (char *)(((u64)raw + align - 1) & ~(u64)(align - 1)); if (size + align > (long)sizeof raw) sim_fail("harness", "task data too large");
    if (cpy) cpy(q, data); else memcpy(q, data, size); ((long *)q)[0] = s; ((long *)q)[1] = e; fn(q);
}
bool GOMP_single_start(void) { yield_at(true); NoLib nl; Team *t = cur->team; if (!t || t->n < 2) return true; u64 id = cur->singleseq++; bool &b = t->single_taken[id]; if (b) return false; b = true; return true; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, n + 1, 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned cnt, unsigned) { run_team(fn, data, team_size(n), [=](Team *t) { t->loops.emplace(0, mkloop(1, (long)cnt + 1, 1, 1, 1)); }); }
void GOMP_sections_end(void) { cur->cur_loop = 0; barrier(); }
void GOMP_sections_end_nowait(void) { cur->cur_loop = 0; }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    char raw[8192]; if (cpy) { if (size + align > (long)sizeof raw) sim_fail("harness", "task data too large"); char *q = (char *)(((u64)raw + align - 1) & ~(u64)(align - 1)); cpy(q, data); fn(q); } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return cur->team_id; }
int omp_get_num_threads(void) { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads(void) { return cur->nthreads; }
void omp_set_num_threads(int n) { cur->nthreads = n; }
int omp_get_num_procs(void) { return sc.ompProcs; }
int omp_in_parallel(void) { return rt_in_parallel(); }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; } void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return cur->team ? 1 : 0; } int omp_get_thread_limit(void) { return 64; } int omp_get_active_level(void) { return rt_in_parallel(); }
double omp_get_wtime(void) { return step * 1e-9; }
void omp_init_lock(void *l) { *(int *)l = 0; } void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { acquire(lock_for((u64)l)); } void omp_unset_lock(void *l) { release(lock_for((u64)l)); }
int omp_test_lock(void *l) { Lock *k = lock_for((u64)l); if (k->owner != -1) return 0; acquire(k); return 1; }
void omp_init_nest_lock(void *) {} void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *l) { acquire(lock_for((u64)l)); } void omp_unset_nest_lock(void *l) { release(lock_for((u64)l)); }
}

// ---------------------------------------------------------------- memory access callbacks (race variant)
#ifdef SIM_RACE
bool rt_is_race_variant() { return true; }
static inline void acc(void *p, size_t n, bool w, u64 pc) { if (__builtin_expect(live < 2, 1)) return; yield_at(false); shadow(p, n, w, false, pc); }
static void at_sync(void *a, size_t n, bool w, u64 pc) {
    if (live < 2) return; yield_at(true); NoLib nl; VC *&v = (*atomics)[(u64)a]; if (!v) { v = (VC *)calloc(1, sizeof(VC)); }
    shadow(a, n, w, true, pc); join_vc(cur->vc, *v); join_vc(*v, cur->vc); cur->vc[cur->tid]++;
}
#define RA ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init(void) {} void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define ACC(N) void __tsan_read##N(void *p) { acc(p, N, false, RA); } void __tsan_write##N(void *p) { acc(p, N, true, RA); } \
 void __tsan_unaligned_read##N(void *p) { acc(p, N, false, RA); } void __tsan_unaligned_write##N(void *p) { acc(p, N, true, RA); } \
 void __tsan_volatile_read##N(void *p) { acc(p, N, false, RA); } void __tsan_volatile_write##N(void *p) { acc(p, N, true, RA); } \
 void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false, RA); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, false, RA); } void __tsan_write_range(void *p, unsigned long n) { acc(p, n, true, RA); }
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true, RA); } void __tsan_vptr_read(void **p) { acc(p, 8, false, RA); }
#define ATOM(B, TY) \
 TY __tsan_atomic##B##_load(const volatile TY *a, int) { at_sync((void *)a, B / 8, false, RA); return *a; } \
 void __tsan_atomic##B##_store(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); *a = v; } \
 TY __tsan_atomic##B##_exchange(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = v; return o; } \
 TY __tsan_atomic##B##_fetch_add(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = o + v; return o; } \
 TY __tsan_atomic##B##_fetch_sub(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = o - v; return o; } \
 TY __tsan_atomic##B##_fetch_and(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = o & v; return o; } \
 TY __tsan_atomic##B##_fetch_or(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = o | v; return o; } \
 TY __tsan_atomic##B##_fetch_xor(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = o ^ v; return o; } \
 TY __tsan_atomic##B##_fetch_nand(volatile TY *a, TY v, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int, int) { at_sync((void *)a, B / 8, true, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int, int) { at_sync((void *)a, B / 8, true, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY *a, TY c, TY v, int, int) { at_sync((void *)a, B / 8, true, RA); TY o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
void *sim_memset(void *p, int c, size_t n) { acc(p, n, true, RA); return memset(p, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { acc((void *)s, n, false, RA); acc(d, n, true, RA); return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { acc((void *)s, n, false, RA); acc(d, n, true, RA); return memmove(d, s, n); }
}
#else
bool rt_is_race_variant() { return false; }
extern "C" {
void *sim_memset(void *p, int c, size_t n) { return memset(p, c, n); }
void *sim_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
}
#endif
extern "C" void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { const char *b = strrchr(f, '/'); sim_fail("assert", "assertion `%s' failed in %s (%s:%u)", e, fn ? fn : "?", b ? b + 1 : f, l); }
// locks the library might use besides OpenMP's: all under the simulated scheduler
extern "C" {
#define SIMLOCK(name) int sim_##name(void *l) { acquire(lock_for((u64)l)); return 0; }
#define SIMUNLOCK(name) int sim_##name(void *l) { release(lock_for((u64)l)); return 0; }
#define SIMTRY(name, ok, no) int sim_##name(void *l) { Lock *k = lock_for((u64)l); if (k->owner != -1) return no; acquire(k); return ok; }
SIMLOCK(pthread_mutex_lock) SIMUNLOCK(pthread_mutex_unlock) SIMTRY(pthread_mutex_trylock, 0, 16)
SIMLOCK(pthread_spin_lock) SIMUNLOCK(pthread_spin_unlock) SIMTRY(pthread_spin_trylock, 0, 16)
SIMLOCK(pthread_rwlock_rdlock) SIMLOCK(pthread_rwlock_wrlock) SIMUNLOCK(pthread_rwlock_unlock)
SIMLOCK(g_mutex_lock) SIMUNLOCK(g_mutex_unlock) SIMTRY(g_mutex_trylock, 1, 0)
SIMLOCK(g_rec_mutex_lock) SIMUNLOCK(g_rec_mutex_unlock) SIMTRY(g_rec_mutex_trylock, 1, 0)
int sim_pthread_once(void *o, void (*f)(void)) { static std::map<void *, bool> done; Lock *k = lock_for((u64)o); acquire(k); bool first; { NoLib nl; first = !done[o]; done[o] = true; } if (first) f(); release(k); return 0; }
static int once_enter(volatile u64 *l) { Lock *k = lock_for((u64)l ^ 1); acquire(k); if (*l) { release(k); return 0; } return 1; } // the lock is kept until the value is there
static void once_leave(volatile u64 *l, u64 v) {
#ifdef SIM_RACE
    at_sync((void *)l, 8, true, (u64)__builtin_return_address(0));
#endif
    *l = v; release(lock_for((u64)l ^ 1)); }
int sim_g_once_init_enter(volatile void *l) { return once_enter((volatile u64 *)l); } int sim_g_once_init_enter_pointer(volatile void *l) { return once_enter((volatile u64 *)l); }
void sim_g_once_init_leave(volatile void *l, u64 v) { once_leave((volatile u64 *)l, v); } void sim_g_once_init_leave_pointer(volatile void *l, u64 v) { once_leave((volatile u64 *)l, v); }
}
