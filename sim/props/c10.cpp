// C10: reset forgets the past completely.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    BrushGen g; g.buckets = r.chance(0.4); gen_brush(r, p, g); p.cfg["buckets"] = g.buckets ? r.range(1, 12) : 0; p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20); p.cfg["ret"] = r.chance(0.6) ? 0 : r.range(1, 4); p.cfg["late"] = r.chance(0.5); p.cfg["onset"] = r.chance(0.3) ? f32(r.uni(0.1, 2)) : 0;
    EvState es; EvGen eg; eg.gap5 = 0.005; int n = r.range(1, tier ? 60 : 30);
    for (int i = 0; i < n; i++) { p.add("pre", ev_args(gen_ev(r, es, eg))); if (g.buckets && r.chance(0.1)) p.add("bucket", {(double)r.range(0, 11), f32(r.u()), f32(r.u())}); if (r.chance(0.04)) p.add("preset"); if (r.chance(0.08)) { int s = r.range(0, MYPAINT_BRUSH_STATES_COUNT - 1); p.add("state", {(double)s, f32(r.uni(-3, 3))}); } }
    p.add("cut", {(double)r.range(0, 1)}); { Ev e = gen_ev(r, es, eg); e.pressure = 0; e.dt = f32(r.uni(5.01, 40)); if (r.chance(0.3)) e.x = f32(r.uni(-300, 300)); p.add("hover", ev_args(e)); }
    n = r.range(1, tier ? 60 : 30); es.left = 0; for (int i = 0; i < n; i++) p.add("post", ev_args(gen_ev(r, es, eg)));
}
static void exec(const Plan &p) {
    int nb = std::max(0, std::min(64, p.ci("buckets"))); MyPaintBrush *a = brush_new(nb), *b = brush_new(nb); RecSurface *ra = rec_new(p.ci("rec"), (u64)p.c("rseed")), *rb = rec_new(p.ci("rec"), (u64)p.c("rseed")); ra->retmode = rb->retmode = p.ci("ret");
    apply_brush_op(a, Op{"defaults"}); apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o)) { apply_brush_op(a, o); apply_brush_op(b, o); }
    float noise = (float)p.c("onset"); if (noise > 0) { InLib l; mypaint_brush_set_base_value(a, SET(TRACKING_NOISE), noise); }
    bool cut = false; u64 id = 0; size_t a0 = 0; int prek = 0; size_t post = 0;
    for (auto &o : p.ops) {
        if (!cut) {
            if (o.k == "pre") { R_ev(a, ra, ev_from(o), id++); prek++; } else if (o.k == "preset") { InLib l; mypaint_brush_reset(a); }
            else if (o.k == "bucket") { float v[9]; for (int i = 0; i < 9; i++) v[i] = (float)o.arg(1 + (i & 1)); B_setbucket(a, o.iarg(0), v); }
            else if (o.k == "state") { int s = o.iarg(0); if (s >= 0 && s < MYPAINT_BRUSH_STATES_COUNT && s != MYPAINT_BRUSH_STATE_FLIP && s != MYPAINT_BRUSH_STATE_PRESSURE && s != MYPAINT_BRUSH_STATE_VIEWZOOM) { InLib l; float v = std::max(0.01f, (float)o.arg(1)); if (s == MYPAINT_BRUSH_STATE_PARTIAL_DABS) v = std::min(v, 0.99f); /* the engine keeps it below one */ mypaint_brush_set_state(a, (MyPaintBrushState)s, v); } }
            else if (o.k == "hover" || o.k == "cut") {
                if (o.k == "cut") { if (o.iarg(0)) { InLib l; mypaint_brush_reset(a); } continue; }
                if (noise > 0) { InLib l; mypaint_brush_set_base_value(a, SET(TRACKING_NOISE), 0); } bool late = p.ci("late"); /* the new stroke is begun before or after the resetting event */ if (!late) { InLib l; mypaint_brush_new_stroke(a); }
                Ev e = ev_from(o); e.pressure = 0; bool gap = true; for (auto &q : p.ops) if (q.k == "cut" && q.iarg(0)) gap = false; if (gap) e.dt = std::max(e.dt, 5.01); else e.dt = std::fmod(std::fabs(e.dt), 2.0);
                a0 = ra->dabs->size(); int x = R_ev(a, ra, e, 100000), y = R_ev(b, rb, e, 100000); cut = true; sim_count(gap ? "fault_clock_jump_reset" : "probe_explicit_reset"); if (late) { InLib l; mypaint_brush_new_stroke(a); mypaint_brush_new_stroke(b); }
                CHECK(ra->dabs->size() == a0 && rb->dabs->empty(), "reset-draws", "the event that resets the brush drew %zu dabs", ra->dabs->size() - a0); CHECK(x == y, "reset-return", "the event that resets returned %d on the used brush, %d on the new one", x, y);
                std::string d = diff_states(a, b); CHECK(d.empty(), "reset-state", "after a reset (%s), used brush versus new brush: %s", gap ? "time gap" : "requested", d.c_str()); d = diff_buckets(a, b, nb); CHECK(d.empty(), "reset-state", "after a reset, used brush versus new brush: %s", d.c_str());
                for (auto q : {a, b}) { CHECK(B_st(q, MYPAINT_BRUSH_STATE_ACTUAL_X) == B_st(q, MYPAINT_BRUSH_STATE_X) && B_st(q, MYPAINT_BRUSH_STATE_ACTUAL_Y) == B_st(q, MYPAINT_BRUSH_STATE_Y), "reset-position", "after a reset the brush is at %g,%g and its actual position at %g,%g", B_st(q, MYPAINT_BRUSH_STATE_X), B_st(q, MYPAINT_BRUSH_STATE_Y), B_st(q, MYPAINT_BRUSH_STATE_ACTUAL_X), B_st(q, MYPAINT_BRUSH_STATE_ACTUAL_Y)); CHECK(B_st(q, MYPAINT_BRUSH_STATE_PRESSURE) == 0, "reset-position", "after a reset with the pen hovering the pressure is %g", B_st(q, MYPAINT_BRUSH_STATE_PRESSURE)); }
                int m0 = LIB(mypaint_brush_get_min_smudge_bucket_used(a)), m1 = LIB(mypaint_brush_get_max_smudge_bucket_used(a)); CHECK(m0 == -1 && m1 == -1, "reset-state", "after a reset buckets %d..%d count as used", m0, m1); id = 100001; ra->ndabs = rb->ndabs = 0;
            }
        } else if (o.k == "post") {
            Ev e = ev_from(o); int x = R_ev(a, ra, e, id), y = R_ev(b, rb, e, id); id++; state_of(a);
            std::string d = diff_dabs(*ra->dabs, *rb->dabs, a0, 0); CHECK(d.empty(), "reset-dabs", "painting after a reset differs from a new brush at %s: %s", ev_str(e).c_str(), d.c_str()); post += rb->dabs->size(); ra->dabs->clear(); rb->dabs->clear(); a0 = 0; CHECK(x == y, "reset-return", "stroke_to returned %d on the reset brush, %d on the new one", x, y);
            double ta = LIB(mypaint_brush_get_total_stroke_painting_time(a)), tb = LIB(mypaint_brush_get_total_stroke_painting_time(b)); CHECK(ta == tb, "reset-return", "painting time %g versus %g", ta, tb);
        }
    }
    if (cut) { std::string d = diff_states(a, b); CHECK(d.empty(), "reset-state", "states at the end: %s", d.c_str()); if (prek && post) sim_nontrivial(); sim_count("probe_dabs_after_reset", post); sim_count("probe_skip_pending", noise > 0); }
    B_unref(a); B_unref(b); rec_free(ra); rec_free(rb);
}
static RegProp reg({"C10", "ra", gen, exec});
