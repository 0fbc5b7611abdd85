// C13: strokes are split for undo within bounded time, and only then.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    BrushGen g; g.smudge_transp = false; g.random = r.chance(0.3); gen_brush(r, p, g); p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20); p.cfg["ret"] = r.range(0, 4); p.cfg["split"] = r.range(0, 2); p.cfg["noise"] = r.chance(0.2) ? f32(std::pow(10, r.uni(-2.5, 0.5))) : 0;
    EvState es; EvGen eg; eg.gap5 = 0.004; eg.speed = r.chance(0.3) ? 0.02 : 1; double scale = std::pow(10.0, r.uni(-0.5, 1.3)); int n = r.range(10, tier ? 250 : 120); int hold = 0; bool hover = false; double flat = -1, strong = r.chance(0.25) ? r.uni(1, 2) : 1;
    for (int i = 0; i < n; i++) {
        Ev e = gen_ev(r, es, eg); if (e.dt > 0 && e.dt < 5) e.dt = std::min(4.9, e.dt * scale);
        if (hold-- <= 0) { hold = r.range(5, 40); hover = r.chance(0.25); flat = r.chance(0.4) ? r.uni(0.05, strong) : -1; } if (hover) e.pressure = 0; else if (strong > 1) e.pressure = f32(e.pressure * strong); if (!hover && flat > 0) e.pressure = f32(flat);
        p.add("ev", ev_args(e)); if (r.chance(0.02)) p.add("newstroke"); if (r.chance(0.01)) p.add("reset");
    }
}
static void exec(const Plan &p) {
    MyPaintBrush *b = brush_new(0); apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o)) apply_brush_op(b, o); RecSurface *rs = rec_new(p.ci("rec"), (u64)p.c("rseed")); rs->retmode = p.ci("ret"); rs->retseed = 5;
    // what the surface said about each dab of the current event
    static int draws, yes; static MyPaintSurfaceDrawDabFunction inner; inner = rs->parent.draw_dab; rs->parent.draw_dab = [](MyPaintSurface *s, float x, float y, float ra, float r, float g, float bl, float op, float h, float so, float a, float ar, float an, float l, float c, float po, float pn, float pa) -> int { int v = inner(s, x, y, ra, r, g, bl, op, h, so, a, ar, an, l, c, po, pn, pa); draws++; yes += v != 0; return v; };
    float nz = (float)p.c("noise"), noise = 0, skip = 0, lx = 0, ly = 0; double skipped = 0; u64 nskip = 0; if (nz > 0 && nz < 10) { InLib l; mypaint_brush_set_base_value(b, SET(TRACKING_NOISE), nz); noise = expf(mypaint_brush_get_base_value(b, SET(RADIUS_LOGARITHMIC))) * nz; }
    double tot = 0, idle = 0; bool reset = true; u64 id = 0, splits = 0, quiet = 0; int mode = p.ci("split");
    for (auto &o : p.ops) {
        if (o.k == "newstroke") { InLib l; mypaint_brush_new_stroke(b); tot = idle = 0; continue; } if (o.k == "reset") { InLib l; mypaint_brush_reset(b); reset = true; continue; } if (o.k != "ev") continue;
        Ev e = ev_from(o); if (!(std::fabs(e.x) < 1e7f) || !(std::fabs(e.y) < 1e7f)) continue; no_split_event(b, e); draws = yes = 0; float p0 = B_st(b, MYPAINT_BRUSH_STATE_PRESSURE); int rv = R_ev(b, rs, e, id++); double dt = e.dt <= 0 ? 0.0001 : e.dt; float pr = e.pressure <= 0 ? 0 : e.pressure;
        if (skip > 0.001f) { // tracking noise works on a minimum length of motion: shorter motions are gathered into one event
            skip -= hypotf(lx - e.x, ly - e.y); lx = e.x; ly = e.y; skipped += dt; dt = skipped = (float)skipped; nskip++; if (std::fabs(skip - 0.001) < 1e-6 + 1e-5 * noise || std::fabs(dt - 5) < 1e-6) break;
            if (skip > 0.001f && !reset && dt <= 5) { CHECK(!rv && !draws, "split-rule", "an event gathered into a later one returned %d and drew %d dabs", rv, draws); double t = LIB(mypaint_brush_get_total_stroke_painting_time(b)); CHECK(std::fabs(t - tot) <= (nskip ? 1e-6 : 1e-9) * (1 + tot), "painting-time", "reported painting time %.12g, the painting events sum to %.12g", t, tot); continue; }
            skip = 0; skipped = 0; }
        if (noise > 0.001f) { skip = 0.5f * noise; lx = e.x; ly = e.y; } if (reset || dt > 5) skip = 0;
        int want = 0; bool unsure = false; const char *why = "none of the rules applies";
        if (reset || dt > 5) { want = 1; why = "the event resets the brush"; reset = false; CHECK(!draws, "split-rule", "a resetting event drew dabs"); }
        else {
            bool painted = yes > 0; if (!draws) painted = !(idle > 0 || tot == 0);
            if (painted) { tot += dt; idle = 0; double lim = 4 + 3 * (double)pr; if (std::fabs(tot - lim) < 1e-5) unsure = true; if (tot > lim) { float part = B_st(b, MYPAINT_BRUSH_STATE_PARTIAL_DABS); float dp = pr - p0; if (dp != 0 && (std::fabs(dp) < 1e-3 || (draws && part < 1e-2))) unsure = true; if (dp >= 0) { want = 1; why = "painting time exceeds 4 s + 3 s x pressure and pressure is not falling"; } else why = "pressure is falling"; } }
            else { idle += dt; if (tot == 0) { if (std::fabs(idle - 1.0) < 1e-5) unsure = true; if (idle > 1.0) want = 1, why = "more than one second without painting"; } else { double lim = 0.9 + 5 * (double)pr; if (std::fabs(tot + idle - lim) < 1e-5) unsure = true; if (tot + idle > lim) want = 1, why = "painting plus idle time exceeds 0.9 s + 5 s x pressure"; } }
        }
        if (!unsure) CHECK(!!rv == want, "split-rule", "stroke_to returned %d, expected %d: %s (painting time %.6g, idle %.6g, pressure %.4g from %.4g, dabs in this event %d of which %d changed the surface; %s)", rv, want, why, tot, idle, pr, p0, draws, yes, ev_str(e).c_str()); else sim_count("probe_undecided_boundary");
        double t = LIB(mypaint_brush_get_total_stroke_painting_time(b)); CHECK(std::fabs(t - tot) <= (nskip ? 1e-6 : 1e-9) * (1 + tot), "painting-time", "reported painting time %.12g, the painting events sum to %.12g", t, tot);
        if (rv) splits++; else quiet++; sim_count(want ? "probe_split_expected" : "probe_no_split_expected"); if (want) { sim_hash(want); sim_count(why[0] == 't' ? "probe_split_reset" : why[0] == 'm' ? "probe_split_idle" : why[9] == 't' ? "probe_split_painting" : "probe_split_pause"); }
        sim_state(mix64((u64)(tot * 4) * 10000 + (u64)(idle * 4) * 100 + (u64)(pr * 8))); if (rv && (mode == 0 || (mode == 1 && id % 3))) { InLib l; mypaint_brush_new_stroke(b); tot = idle = 0; }
    }
    if (splits > 1 && quiet) sim_nontrivial(); sim_count("probe_gathered_events", nskip); B_unref(b); rec_free(rs);
}
static RegProp reg({"C13", "ra", gen, exec});
