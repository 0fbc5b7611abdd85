// C12: insane input events are harmless.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    BrushGen g; g.random = r.chance(0.5); g.noise = g.random; g.buckets = r.chance(0.3); gen_brush(r, p, g); p.cfg["buckets"] = g.buckets ? r.range(1, 12) : 0; p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20); p.cfg["ret"] = r.range(0, 4);
    if (r.chance(0.4)) { int k = r.range(1, 5); for (int i = 0; i < k; i++) { int id = r.range(0, MYPAINT_BRUSH_SETTINGS_COUNT - 1); const MyPaintBrushSettingInfo *s = mypaint_brush_setting_info((MyPaintBrushSetting)id); if (id == SET(DABS_PER_SECOND) || id == SET(DABS_PER_ACTUAL_RADIUS) || id == SET(DABS_PER_BASIC_RADIUS)) continue; if (!g.random && (id == SET(TRACKING_NOISE))) continue; double v = r.chance(0.3) ? s->min : r.chance(0.4) ? s->max : std::max((double)s->min, std::min((double)s->max, s->def + std::pow(10.0, r.uni(-12, -1)) * (r.chance(0.5) ? 1 : -1))); p.add("set", {(double)id, f32(v)}); } }
    EvState es; EvGen eg; eg.gap5 = 0.01; int n = r.range(4, tier ? 120 : 60);
    for (int i = 0; i < n; i++) {
        Ev e = gen_ev(r, es, eg); if (r.chance(0.06)) e.pressure = f32(-r.uni(0, 3)); if (r.chance(0.02)) e.pressure = f32(r.uni(1, 3)); if (r.chance(0.02)) { e.x = f32(r.uni(-1, 1) * 3000); } if (r.chance(0.05)) { e.xt = f32(r.uni(-20, 20)); e.yt = f32(r.uni(-20, 20)); } if (r.chance(0.03)) e.zoom = f32(std::pow(10.0, r.uni(-3, 3))); if (r.chance(0.03)) e.rot = f32(r.uni(-100, 100)); if (r.chance(0.03)) e.barrel = f32(r.uni(-30, 30)); if (r.chance(0.1)) e.linear = 1;
        if (r.chance(0.03)) e.dt = -1e9;
        p.add("ev", ev_args(e)); if (r.chance(0.15)) { int k = r.range(1, 3); for (int j = 0; j < k; j++) { Ev b = gen_ev(r, es, eg); if (r.chance(0.3)) b.dt = r.uni(5, 100); if (r.chance(0.2)) b.pressure = f32(r.u()); std::vector<double> a = ev_args(b); a.insert(a.begin(), {(double)r.range(1, 3), (double)r.range(0, 6)}); p.add("bad", a); } }
        if (r.chance(0.02)) p.add("reset"); if (r.chance(0.03)) p.add("newstroke");
    }
}
static void exec(const Plan &p) {
    int nb = std::max(0, std::min(64, p.ci("buckets"))); auto setup = [&]() { MyPaintBrush *b = brush_new(nb); apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o)) apply_brush_op(b, o); return b; };
    MyPaintBrush *a = setup(), *b = setup(); RecSurface *ra = rec_new(p.ci("rec"), (u64)p.c("rseed")), *rb = rec_new(p.ci("rec"), (u64)p.c("rseed")); ra->retmode = rb->retmode = p.ci("ret"); ra->retseed = rb->retseed = 3; ra->check_finite = rb->check_finite = true; u64 id = 0, bad = 0, fixed = 0; size_t k0 = 0;
    for (auto &o : p.ops) {
        if (o.k == "bad") {
            Ev e = ev_from(o, 2); int w = o.iarg(0), k = o.iarg(1); static const float v[7] = {NAN, INFINITY, -INFINITY, 2e10f, -2e10f, 3e38f, -1.5e10f}; float x = v[std::max(0, std::min(6, k))]; if (w & 1) e.x = x; if (w & 2 || !(w & 3)) e.y = x;
            float s0[MYPAINT_BRUSH_STATES_COUNT]; B_state(a, s0); double t0 = LIB(mypaint_brush_get_total_stroke_painting_time(a)); u64 n0 = ra->ndabs, q0 = ra->picks; int rv = R_ev(a, ra, e, id); bad++; sim_count("fault_insane_event");
            CHECK(rv == 0, "insane-return", "an event with insane coordinates returned %d: %s", rv, ev_str(e).c_str()); CHECK(ra->ndabs == n0 && ra->picks == q0, "insane-draws", "an event with insane coordinates drew %llu dabs: %s", (unsigned long long)(ra->ndabs - n0), ev_str(e).c_str());
            float s1[MYPAINT_BRUSH_STATES_COUNT]; B_state(a, s1); for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) CHECK(feq(s0[i], s1[i]), "insane-state", "an event with insane coordinates changed state %d: %g to %g (%s)", i, s0[i], s1[i], ev_str(e).c_str()); CHECK(LIB(mypaint_brush_get_total_stroke_painting_time(a)) == t0, "insane-state", "an event with insane coordinates changed the painting time");
        } else if (o.k == "ev") {
            Ev e = ev_from(o), f = e; if (ra->ndabs > 30000) continue; if (!(std::fabs(e.x) < 1e7f) || !(std::fabs(e.y) < 1e7f)) continue; if (f.dt <= 0) f.dt = 0.0001, fixed++; if (f.pressure < 0) f.pressure = 0, fixed++;
            int x = R_ev(a, ra, e, id), y = R_ev(b, rb, f, id); id++; state_of(a);
            std::string d = diff_dabs(*ra->dabs, *rb->dabs, k0, k0); CHECK(d.empty(), "insane-dabs", "painting differs from the same stroke without the insane events (or with times and pressures corrected) at %s: %s", ev_str(e).c_str(), d.c_str());
            CHECK(x == y, "insane-split", "stroke_to returned %d, without the insane events %d", x, y); ra->dabs->clear(); rb->dabs->clear(); k0 = 0; double ta = LIB(mypaint_brush_get_total_stroke_painting_time(a)), tb = LIB(mypaint_brush_get_total_stroke_painting_time(b)); CHECK(ta == tb, "insane-split", "painting time %.9g, without the insane events %.9g", ta, tb);
        } else if (o.k == "reset") { InLib l; mypaint_brush_reset(a); mypaint_brush_reset(b); } else if (o.k == "newstroke") { InLib l; mypaint_brush_new_stroke(a); mypaint_brush_new_stroke(b); }
    }
    std::string d = diff_states(a, b); CHECK(d.empty(), "insane-state", "states differ at the end: %s", d.c_str()); d = diff_buckets(a, b, nb); CHECK(d.empty(), "insane-state", "%s", d.c_str());
    if ((bad || fixed) && ra->ndabs) sim_nontrivial(); sim_count("probe_dabs", ra->ndabs); B_unref(a); B_unref(b); rec_free(ra); rec_free(rb);
}
static RegProp reg({"C12", "ra", gen, exec});
