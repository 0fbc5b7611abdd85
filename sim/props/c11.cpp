// C11: saved engine state resumes a stroke exactly. The crash point is an event boundary: the process
// dies there, and a new one continues from the recorded states and smudge buckets.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    BrushGen g; g.buckets = r.chance(0.5); g.gridmap_dyn = false; gen_brush(r, p, g); p.cfg["buckets"] = g.buckets ? r.range(1, 12) : 0; p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20); p.cfg["ret"] = r.chance(0.6) ? 0 : r.range(1, 4);
    EvState es; EvGen eg; eg.gap5 = 0.01; int n = r.range(3, tier ? 120 : 60), every = r.chance(0.3);
    for (int i = 0; i < n; i++) { p.add("ev", ev_args(gen_ev(r, es, eg))); if (every || r.chance(0.12)) p.add("crash", {(double)r.range(0, 3), (double)r.range(1, 1 << 20)}); if (r.chance(0.03)) p.add("reset"); }
}
static void exec(const Plan &p) {
    int nb = std::max(0, std::min(64, p.ci("buckets"))); auto setup = [&]() { MyPaintBrush *b = brush_new(nb); apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o)) apply_brush_op(b, o); return b; };
    MyPaintBrush *a = setup(), *c = setup(); RecSurface *ra = rec_new(p.ci("rec"), (u64)p.c("rseed")), *rc = rec_new(p.ci("rec"), (u64)p.c("rseed")); ra->retmode = rc->retmode = p.ci("ret"); u64 id = 0; bool resumed = false; size_t c0 = 0, a0 = 0; u64 crashes = 0, after = 0; bool asked = true, pend = false;
    Ev dummy{0, 0, 0, 0, 0, 0.01, 1, 0, 0, 0}; auto cold = [&](MyPaintBrush *b, int garbage, u64 seed) { // a new process: the brush handles its initial reset, possibly some unrelated work
        R_ev(b, rc, dummy, 777777); Rng r(seed); EvState es; EvGen eg; eg.faults = false; for (int i = 0; i < garbage * 4; i++) R_ev(b, rc, gen_ev(r, es, eg), 777777); };
    for (auto &o : p.ops) {
        if (o.k == "ev") {
            Ev e = ev_from(o); R_ev(a, ra, e, id); asked = false; if (resumed) { R_ev(c, rc, e, id); std::string d = diff_dabs(*ra->dabs, *rc->dabs, a0, c0); CHECK(d.empty(), "resume-dabs", "after restoring the recorded state the stroke continues differently at %s: %s", ev_str(e).c_str(), d.c_str()); d = diff_states(a, c); CHECK(d.empty(), "resume-state", "after restoring the recorded state, at %s: %s", ev_str(e).c_str(), d.c_str()); d = diff_buckets(a, c, nb); CHECK(d.empty(), "resume-state", "after restoring the recorded state: %s", d.c_str()); after += ra->dabs->size() - a0; }
            ra->dabs->clear(); rc->dabs->clear(); a0 = c0 = 0; id++; state_of(a);
        } else if (o.k == "reset") { { InLib l; mypaint_brush_reset(a); if (resumed) mypaint_brush_reset(c); } asked = true; }
        else if (o.k == "crash" && !asked) { // a pending reset request is not part of the record
            float st[MYPAINT_BRUSH_STATES_COUNT]; B_state(a, st); std::vector<std::vector<float>> bk; for (int i = 0; i < nb; i++) { std::vector<float> v(9); CHECK(B_bucket(a, i, v.data()), "bucket-refused", "bucket %d of %d cannot be read", i, nb); bk.push_back(v); }
            B_unref(c); c = setup(); cold(c, std::max(0, std::min(3, o.iarg(0))), (u64)o.arg(1, 1)); { InLib l; for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) mypaint_brush_set_state(c, (MyPaintBrushState)i, st[i]); }
            for (int i = 0; i < nb; i++) CHECK(B_setbucket(c, i, bk[i].data()), "bucket-refused", "bucket %d of %d cannot be written", i, nb);
            std::string d = diff_states(a, c); CHECK(d.empty(), "state-readback", "state read back differs from what was written: %s", d.c_str()); d = diff_buckets(a, c, nb); CHECK(d.empty(), "state-readback", "bucket read back differs: %s", d.c_str());
            resumed = true; crashes++; sim_count("fault_crash_restart"); ra->dabs->clear(); rc->dabs->clear(); a0 = c0 = 0;
        }
    }
    if (crashes && after) sim_nontrivial(); sim_count("probe_dabs_after_restart", after); B_unref(a); B_unref(c); rec_free(ra); rec_free(rc);
}
static RegProp reg({"C11", "ra", gen, exec});
