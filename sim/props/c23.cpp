// C23: every call comes back. An event is finished in a number of dabs bounded by the distance and time it covers,
// wherever on the canvas it happens; a transaction visits each tile at most once.
#include "brush.h"
#include "../rt.h"
static void gen(Rng &r, Plan &p, int tier) {
    if (r.chance(0.2)) { // transactions
        p.cfg["canvas"] = 1; gen_store(r, p); p.cfg["threadsafe"] = r.chance(0.5); if (p.cfg["threadsafe"]) gen_sched(r, p, 6, 0.1);
        CanvasGen g; g.symm = false; g.dab.area = r.pick(std::vector<double>{20, 60, 150}); g.dab.rmax = r.pick(std::vector<double>{6, 25}); g.nmax = tier ? 80 : 40; g.cycles = r.chance(0.15); g.spread = r.chance(0.3); gen_canvas(r, p, g); return;
    }
    BrushGen g; g.random = r.chance(0.3); g.noise = false; g.buckets = false; g.smudge_transp = false; g.dynamics = r.chance(0.4); g.rlog_min = -2; gen_brush(r, p, g); p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20);
    auto set = [&](int id, double v) { p.add("set", {(double)id, f32(v)}); };
    double rl = r.chance(0.4) ? r.uni(-2.3, 0.5) : r.uni(-1, 3.5); set(SET(RADIUS_LOGARITHMIC), rl); if (r.chance(0.7)) set(SET(DABS_PER_ACTUAL_RADIUS), r.chance(0.2) ? 0 : r.uni(0, 6)); if (r.chance(0.5)) set(SET(DABS_PER_BASIC_RADIUS), r.chance(0.3) ? 0 : r.uni(0, 6)); if (r.chance(0.4)) set(SET(DABS_PER_SECOND), r.uni(0, 80));
    if (r.chance(0.25)) { set(SET(ELLIPTICAL_DAB_RATIO), r.uni(1, 10)); set(SET(ELLIPTICAL_DAB_ANGLE), r.uni(0, 180)); } if (r.chance(0.2)) set(SET(TRACKING_NOISE), r.uni(0, 4)); if (r.chance(0.3)) set(SET(SLOW_TRACKING), r.chance(0.3) ? r.uni(0, 0.5) : r.uni(0, 10)); if (r.chance(0.2)) set(SET(SLOW_TRACKING_PER_DAB), r.uni(0, 10));
    double rad = std::max(0.2, std::exp(rl)); int k = r.range(1, 3);
    while (k--) { // a place, close or at the far end of the coordinates that are accepted
        auto coord = [&]() { double m = r.chance(0.25) ? r.uni(0, 1000) : std::pow(10.0, r.uni(3, 7.99)); return r.chance(0.5) ? m : -m; }; double bx = coord(), by = r.chance(0.5) ? r.uni(-500, 500) : coord(); p.add("goto", {f32(bx), f32(by)});
        EvState es; EvGen eg; eg.cx = eg.cy = 0; eg.area = r.pick(std::vector<double>{3, 30, 120}) * std::min(10.0, std::max(0.3, rad)); eg.gap5 = 0.01; int n = r.range(3, tier ? 40 : 20);
        double ulp = std::ldexp(1.0, (int)std::floor(std::log2(std::max(1.0, std::max(std::fabs(bx), std::fabs(by))))) - 23);
        for (int i = 0; i < n; i++) { Ev e = gen_ev(r, es, eg); if (r.chance(0.3)) { e.x = (float)(r.range(-6, 6) * ulp); e.y = (float)(r.range(-6, 6) * ulp); } e.x = (float)(e.x + bx); e.y = (float)(e.y + by); if (r.chance(0.05)) e.y = (float)by; p.add("ev", ev_args(e)); }
    }
}
static u64 n_dabs, limit; static MyPaintSurfaceDrawDabFunction inner; static std::string what;
static int counting(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float ratio, float angle, float lock, float colorize, float posterize, float pn, float paint) {
    if (++n_dabs > limit) sim_fail("endless", "%llu dabs in one event, where at most %llu are to be expected: %s", (unsigned long long)n_dabs, (unsigned long long)limit, what.c_str());
    return inner(s, x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, pn, paint); }
static void exec_canvas(const Plan &p) {
    StoreCfg c = store_cfg(p); rt_set_threads(std::max(1, p.ci("threads", 1))); SimSurface *s = surf_new(c); Store &st = *s->st; int ts = st.ts; std::map<TI, u64> bound; std::set<TI> pend; bool open = false; u64 ends = 0, picks = 0, visited = 0; st.wlog.clear();
    auto tiles = [&](double x, double y, double r, std::set<TI> &out) { int x0 = (int)std::floor((x - r - 2) / ts), x1 = (int)std::floor((x + r + 2) / ts), y0 = (int)std::floor((y - r - 2) / ts), y1 = (int)std::floor((y + r + 2) / ts); for (int ty = y0; ty <= y1; ty++) for (int tx = x0; tx <= x1; tx++) out.insert({tx, ty}); };
    auto check = [&](const char *w, const std::set<TI> &may) { std::map<TI, int> n; for (auto &q : st.wlog) { int k = ++n[q.first]; CHECK(k == 1, "visited-twice", "%s asked for tile (%d,%d) %d times to draw on it", w, q.first.first, q.first.second, k); CHECK(may.count(q.first), "visited-idle", "%s asked for tile (%d,%d) to draw on it, but nothing was waiting for it there", w, q.first.first, q.first.second); visited++; } st.wlog.clear(); };
    auto end = [&]() { if (!open) return; open = false; L_end(IF(s)); check("ending the transaction", pend); pend.clear(); ends++; st.idle("end"); };
    for (auto &o : p.ops) {
        if (o.k == "begin") { if (!open) { L_begin(IF(s)); open = true; } } else if (o.k == "end") end();
        else if (o.k == "dab") { Dab d = dab_from(o); if (!(d.radius < 130) || !(std::fabs(d.x) < 2500) || !(std::fabs(d.y) < 2500)) continue; if (!open) { L_begin(IF(s)); open = true; } L_draw(IF(s), d); if (d.radius >= 0.1f) tiles(d.x, d.y, d.radius, pend); }
        else if (o.k == "pick") { float x = (float)o.arg(0), y = (float)o.arg(1), rad = (float)o.arg(2); if (!(rad < 130) || !(std::fabs(x) < 2500) || !(std::fabs(y) < 2500)) continue; u64 k = st.requests, w = st.wlog.size(); rt_set_rand(0, (u64)o.arg(4, 1)); L_pick(IF(s), x, y, rad, (float)o.arg(3)); std::set<TI> area; tiles(x, y, std::max(1.f, rad), area); check("a pickup", pend); picks++; (void)w; CHECK(st.requests - k <= 2 * area.size(), "visited-twice", "a pickup over at most %zu tiles made %llu requests", area.size(), (unsigned long long)(st.requests - k)); for (auto &t : area) (void)t; }
    }
    end(); if (visited) sim_nontrivial(); sim_count("probe_transactions", ends); sim_count("probe_tiles_visited", visited); sim_state(mix64(visited * 64 + picks)); sim_hash(store_hash(st)); surf_unref(s);
}
static void exec(const Plan &p) {
    if (p.ci("canvas")) { exec_canvas(p); return; }
    MyPaintBrush *b = brush_new(0); apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o) && !(o.k == "map" && (o.iarg(0) == SET(DABS_PER_ACTUAL_RADIUS) || o.iarg(0) == SET(DABS_PER_BASIC_RADIUS) || o.iarg(0) == SET(DABS_PER_SECOND) || o.iarg(0) == SET(ELLIPTICAL_DAB_RATIO)))) apply_brush_op(b, o); // curves can ask for any number of dabs
    RecSurface *s = rec_new(p.ci("rec"), (u64)p.c("rseed")); s->cap = 0; inner = s->parent.draw_dab; s->parent.draw_dab = counting;
    auto base = [&](int id) { return (double)LIB(mypaint_brush_get_base_value(b, (MyPaintBrushSetting)id)); }; bool fixed = LIB(mypaint_brush_is_constant(b, SET(RADIUS_LOGARITHMIC)));
    double rad = std::max(0.2, std::min(1000.0, std::exp(base(SET(RADIUS_LOGARITHMIC))))), noise = rad * std::max(0.0, base(SET(TRACKING_NOISE))), ratio = std::max(1.0, base(SET(ELLIPTICAL_DAB_RATIO))), per_px = ratio * (std::max(0.0, base(SET(DABS_PER_ACTUAL_RADIUS))) / (fixed ? rad : 0.2) + std::max(0.0, base(SET(DABS_PER_BASIC_RADIUS))) / rad), per_s = std::max(0.0, base(SET(DABS_PER_SECOND)));
    u64 done = 0, total = 0, far = 0, moved = 0, stuck = 0; double held = 0;
    auto go = [&](const Ev &e) {
        double px = B_st(b, MYPAINT_BRUSH_STATE_X), py = B_st(b, MYPAINT_BRUSH_STATE_Y); double m = std::max(std::max(std::fabs(px), std::fabs((double)e.x)), std::max(std::fabs(py), std::fabs((double)e.y))), ulp = std::ldexp(1.0, (int)std::floor(std::log2(std::max(1.0, m))) - 23);
        double dist = std::fabs(e.x - px) + std::fabs(e.y - py) + 12 * noise + 4 * ulp, dt = std::max(e.dt, 0.0001) + held; double worst = dist * per_px + dt * per_s; n_dabs = 0; if (dt <= 5 && worst > (fixed ? 4000 : 20000)) return; // too long for one event
        limit = (u64)(2.2 * worst) + 20; what = ev_str(e); bool reset = e.dt > 5; double T = held + std::max(e.dt, 0.0001); L_stroke(b, IF(s), e); total += n_dabs; held = noise > 0 ? T : 0; if (reset) held = 0;
        double qx = B_st(b, MYPAINT_BRUSH_STATE_X), qy = B_st(b, MYPAINT_BRUSH_STATE_Y), d = std::fabs(qx - px) + std::fabs(qy - py), expect = d * per_px + T * per_s; double k = 1.02 + std::min(1.1, ulp * per_px); /* rounding of each step */ if (ulp * per_px > 2) far++; if (d > 0) moved++; else if (e.x != qx && !reset) stuck++;
        if (!reset) CHECK(n_dabs <= expect * k + 2 + (k > 1.1 ? 2 : 0), "too-many-dabs", "%llu dabs in one event, the distance %g and time %g call for %g: %s", (unsigned long long)n_dabs, d, T, expect, what.c_str());
        done++; sim_state(mix64((u64)std::min(200.0, std::log2(1 + m) * 4)) + (u64)std::min<u64>(n_dabs, 40)); };
    for (auto &o : p.ops) {
        if (o.k == "goto") { Ev e{}; e.x = (float)std::max(-9.99e7, std::min(9.99e7, o.arg(0))); e.y = (float)std::max(-9.99e7, std::min(9.99e7, o.arg(1))); e.dt = 10; e.zoom = 1; { InLib l; mypaint_brush_reset(b); } go(e); }
        else if (o.k == "ev") { Ev e = ev_from(o); if (!(std::fabs(e.x) < 9.99e7f) || !(std::fabs(e.y) < 9.99e7f)) continue; go(e); }
    }
    if (done > 2 && total) sim_nontrivial(); sim_hash(total); sim_count("probe_events", done); sim_count("probe_dabs", total); sim_count("probe_steps_below_resolution", far); B_unref(b); rec_free(s);
}
static RegProp reg({"C23", "ra", gen, exec});
