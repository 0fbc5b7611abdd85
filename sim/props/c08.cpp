// C08: separate brushes and surfaces may be used from separate threads.
#include "inst.h"
#include "../rt.h"
static void gen(Rng &r, Plan &p, int tier) {
    int n = r.range(2, 4); p.cfg["apps"] = n; gen_sched(r, p, 2, 0.3); p.cfg["threads"] = 1; p.cfg["rnd"] = r.range(1, 1 << 20); p.cfg["cold"] = r.chance(0.4); bool par = r.chance(0.25); p.cfg["workers"] = par ? r.range(2, 4) : 1; // each thread renders with workers of its own
    for (int i = 0; i < n; i++) { char pre[8]; snprintf(pre, sizeof pre, "%d:", i); gen_work(r, p, pre, 3, tier ? 24 : 12, true, par); }
}
static void exec(const Plan &p) {
    enum { MAX = 4 }; std::vector<const Op *> ops[MAX]; for (auto &o : p.ops) if (o.k.size() > 2 && o.k[0] >= '0' && o.k[0] < '0' + MAX && o.k[1] == ':') ops[o.k[0] - '0'].push_back(&o);
    struct Out { u64 canvas = 0; std::vector<u64> trace; u64 drew = 0; } alone[MAX], together[MAX]; u64 rnd = (u64)p.c("rnd", 1);
    int workers = std::max(1, std::min(8, p.ci("workers", 1)));
    auto work = [&](int i, Out &out, int w) { rt_set_threads(w); rt_set_rand(0, mix64(rnd + i)); Inst x; for (auto o : ops[i]) x.op(*o, o->k.c_str() + 2); out.canvas = x.canvas(); out.trace = x.trace; out.drew = x.drew; x.drop(); };
    bool cold = p.ci("cold"); // the threads are the first users of the library in this process
    auto each_alone = [&] { for (int i = 0; i < MAX; i++) if (!ops[i].empty()) work(i, alone[i], 1); };
    if (!cold) { MyPaintBrush *b = brush_new(1); apply_brush_op(b, Op{"defaults"}); B_unref(b); each_alone(); }
    std::vector<std::function<void()>> fns; for (int i = 0; i < MAX; i++) if (!ops[i].empty()) { fns.push_back([&, i] { work(i, together[i], workers); }); }
    if (fns.size() > 1) rt_run_threads(fns);
    else return;
    if (cold) { each_alone(); sim_count("probe_threads_first_to_use_the_library"); }
    int busy = 0; for (auto &a : alone) busy += a.drew > 0;
    if (workers > 1 && busy > 1) sim_count("probe_threads_with_own_workers");
    for (int i = 0; i < MAX; i++) if (!ops[i].empty()) {
        size_t k = 0, n = std::min(alone[i].trace.size(), together[i].trace.size()); while (k < n && alone[i].trace[k] == together[i].trace[k]) k++;
        CHECK(k == alone[i].trace.size() && k == together[i].trace.size(), "thread-interference", "thread %d saw different results (return values, states, pickups or reports) next to %d other threads than alone, first at result %zu of %zu", i, (int)fns.size() - 1, k, alone[i].trace.size());
        CHECK(alone[i].canvas == together[i].canvas, "thread-interference", "thread %d left a different canvas next to %d other threads than alone", i, (int)fns.size() - 1); sim_hash(together[i].canvas);
    }
    if (busy > 1 && rt_switches() > 2) sim_nontrivial(); Hash hs; for (int i = 0; i < SH->nsw && i < 4000; i++) { hs.add(SH->sw[i].tid); if (i % 64 == 63) sim_state(hs.h); } sim_state(hs.h); sim_count("probe_thread_switches", rt_switches()); sim_count("probe_threads", fns.size());
}
static RegProp reg({"C08", "r", gen, exec});
