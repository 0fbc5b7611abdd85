// C27: smudging paints with the colours that were picked up. The surface scripts what a pickup reports and logs pickups
// and dabs in order; a model of the smudge colour (exact without pigment mixing, an interval with it) says what each dab may be.
#include "brush.h"
enum { LEGACY, ADDITIVE, PIGMENT };
static const int FEAT[] = {SET(SMUDGE), SET(SMUDGE_LENGTH), SET(SMUDGE_LENGTH_LOG), SET(SMUDGE_RADIUS_LOG), SET(SMUDGE_TRANSPARENCY), SET(SMUDGE_BUCKET), SET(PAINT_MODE)};
static const int PLAIN[] = {SET(RADIUS_LOGARITHMIC), SET(DABS_PER_ACTUAL_RADIUS), SET(DABS_PER_BASIC_RADIUS), SET(DABS_PER_SECOND), SET(COLOR_H), SET(COLOR_S), SET(COLOR_V)};
template <size_t N> static bool in(const int (&v)[N], int id) { for (int i : v) if (i == id) return true; return false; }
static void gen(Rng &r, Plan &p, int tier) {
    int mode = r.pick(std::vector<int>{LEGACY, LEGACY, LEGACY, ADDITIVE, ADDITIVE, PIGMENT}), nb = r.chance(0.6) ? 0 : r.pick(std::vector<int>{1, 2, 4, 16}); bool limit = r.chance(0.3); p.cfg["mix"] = mode; p.cfg["buckets"] = nb; p.cfg["canvas"] = r.range(0, 4); p.cfg["cseed"] = r.range(1, 1 << 20);
    auto set = [&](const char *k, int id, double v) { p.add(k, {(double)id, f32(v)}); }; double rl = r.uni(-0.7, 3), rad = std::exp(rl); set("set", SET(RADIUS_LOGARITHMIC), rl); set("set", SET(DABS_PER_ACTUAL_RADIUS), r.uni(0.3, 5)); if (r.chance(0.3)) set("set", SET(DABS_PER_BASIC_RADIUS), r.uni(0.3, 4)); if (r.chance(0.3)) set("set", SET(DABS_PER_SECOND), r.uni(0, 80)); for (int i = 4; i < 7; i++) set("set", PLAIN[i], r.u());
    set("feat", SET(SMUDGE), r.chance(0.25) ? 1 : r.chance(0.1) ? 0 : r.uni(0, 1.2)); set("feat", SET(SMUDGE_LENGTH), r.chance(0.2) ? 0 : r.chance(0.08) ? 1 : r.uni(0, 1)); if (r.chance(0.5)) set("feat", SET(SMUDGE_LENGTH_LOG), r.chance(0.1) ? 20 : r.uni(0, 5)); if (r.chance(0.5)) set("feat", SET(SMUDGE_RADIUS_LOG), r.uni(-1.6, 1.6)); if (limit) set("feat", SET(SMUDGE_TRANSPARENCY), r.chance(0.2) ? 1 : r.uni(-1, 1)); if (nb) set("feat", SET(SMUDGE_BUCKET), r.range(-1, nb)); if (mode == PIGMENT) set("feat", SET(PAINT_MODE), r.chance(0.5) ? 1 : r.uni(0.05, 1));
    if (!limit) for (int id : FEAT) if (id != SET(SMUDGE_TRANSPARENCY) && id != SET(PAINT_MODE) && r.chance(0.2)) set("slope", id, r.uni(-1, 1) * (id == SET(SMUDGE_BUCKET) ? nb : 1));
    int n = r.range(4, tier ? 50 : 25); EvState es; EvGen eg; eg.area = r.pick(std::vector<double>{6, 25, 80}) * std::max(1.0, rad * 0.4); eg.gap5 = 0.02;
    for (int i = 0; i < n; i++) { Ev e = gen_ev(r, es, eg); e.linear = 0; p.add("ev", ev_args(e)); if (r.chance(0.03)) p.add("reset"); if (r.chance(0.05)) set("feat", r.chance(0.5) ? SET(SMUDGE) : SET(SMUDGE_LENGTH), r.u()); }
}
struct Rec27 { bool pick; Dab d; float x, y, radius, paint, c[4]; };
struct Log27 { MyPaintSurface parent; std::vector<Rec27> *v; int canvas; u64 seed, n; };
static u64 hh(u64 a, u64 b, u64 c) { return mix64(a * 0x9E3779B97F4A7C15ull + mix64(b + mix64(c + 77))); }
static int l_draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float ratio, float angle, float lock, float colorize, float posterize, float pn, float paint) { OutLib o; Log27 *z = (Log27 *)s; Rec27 q{}; q.d = Dab{x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, pn, paint}; hash_dab(q.d); z->v->push_back(q); return 1; }
static void l_pick(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    OutLib o; Log27 *z = (Log27 *)s; u64 k = hh(z->seed, z->canvas == 4 ? 0 : z->n / (z->canvas == 3 ? 5 : 1), z->canvas == 4 ? 0 : (u64)(long long)std::floor(x / 8) * 1000 + (u64)(long long)std::floor(y / 8)); z->n++; auto f = [&](int i) { return (float)((mix64(k + i) >> 40) / 16777216.0); };
    *r = f(0); *g = f(1); *b = f(2); switch (z->canvas) { case 0: *a = 1; break; case 1: *a = (k & 7) == 0 ? 0 : (k & 7) == 1 ? 0.005f : (k & 7) < 4 ? 1 : 0.03f + 0.97f * f(3); break; default: *a = (k & 3) == 0 ? 0 : (k & 3) == 1 ? 1 : 0.03f + 0.97f * f(3); } if (*a == 0) { *r = 0; *g = 1; *b = 0; sim_count("fault_transparent_pickup"); }
    Rec27 q{}; q.pick = true; q.x = x; q.y = y; q.radius = radius; q.paint = paint; q.c[0] = *r; q.c[1] = *g; q.c[2] = *b; q.c[3] = *a; z->v->push_back(q); }
static inline double cl(double v, double a = 0, double b = 1) { return std::max(a, std::min(b, v)); }
static void hsv(double h, double s, double v, double *o) { h = (h - std::floor(h)) * 6; for (int i = 0; i < 3; i++) { double k = std::fmod((i == 0 ? 5 : i == 1 ? 3 : 1) + h, 6); o[i] = v - v * s * std::max(0.0, std::min(std::min(k, 4 - k), 1.0)); } }
struct Bucket { double lo[3], hi[3], a, plo[4], recent, wide; bool sure; };
static void exec(const Plan &p) {
    int mix = std::max(0, std::min(2, p.ci("mix"))), nb = std::max(0, std::min(64, p.ci("buckets"))); MyPaintBrush *b = brush_new(nb); apply_brush_op(b, Op{"defaults"}); auto S = [&](int id, double v) { apply_brush_op(b, Op{"set", {(double)id, v}}); };
    for (int id = 0; id < MYPAINT_BRUSH_SETTINGS_COUNT; id++) for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { InLib l; mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)i, 0); }
    S(SET(ANTI_ALIASING), 0); S(SET(OPAQUE_LINEARIZE), 0); S(SET(SLOW_TRACKING), 0); S(SET(OPAQUE_MULTIPLY), 1); S(SET(PAINT_MODE), 0); S(SET(LOCK_ALPHA), 0); apply_brush_op(b, Op{"map", {(double)SET(LOCK_ALPHA), (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 1, 1}}); if (mix == ADDITIVE) apply_brush_op(b, Op{"map", {(double)SET(PAINT_MODE), (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 1, 0}});
    Log27 *s = (Log27 *)calloc(1, sizeof *s); { InLib l; mypaint_surface_init(&s->parent); } s->parent.draw_dab = l_draw; s->parent.get_color = l_pick; s->v = new std::vector<Rec27>; s->canvas = std::max(0, std::min(4, p.ci("canvas"))); s->seed = (u64)p.c("cseed");
    std::map<int, double> slope; bool started = false, reset = true, have = false; Ev last{}; u64 dabs = 0, picks = 0, refused = 0, mixed = 0, saved = 0, erased = 0; std::vector<Bucket> B(std::max(1, nb)); auto clear = [&]() { for (auto &q : B) { q = Bucket{}; q.sure = true; } }; clear();
    for (auto &o : p.ops) {
        if (o.k == "reset") { sim_note("brush_reset"); InLib l; mypaint_brush_reset(b); reset = true; continue; }
        int id = o.iarg(0, -1); double v = o.arg(1);
        if (o.k == "set" || o.k == "feat" || o.k == "slope") { if (!(std::fabs(v) < 1e3)) continue;
            if (o.k == "set") { if (started || !in(PLAIN, id)) continue; if (id == SET(DABS_PER_ACTUAL_RADIUS) || id == SET(DABS_PER_BASIC_RADIUS)) v = cl(v, 0, 6); if (id == SET(DABS_PER_SECOND)) v = cl(v, 0, 80); if (id == SET(RADIUS_LOGARITHMIC)) v = cl(v, -1, 4); if (id >= SET(COLOR_H) && id <= SET(COLOR_V)) v = cl(v); S(id, v); }
            else { if (!in(FEAT, id) || (id == SET(PAINT_MODE) && (mix != PIGMENT || started))) continue; if (o.k == "feat") { if (id == SET(PAINT_MODE)) v = cl(v, 0.05, 1); S(id, v); } else if (!started && id != SET(SMUDGE_TRANSPARENCY) && id != SET(PAINT_MODE)) { slope[id] = (float)v; apply_brush_op(b, Op{"map", {(double)id, (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 1, v}}); } } continue; }
        if (o.k != "ev") continue; Ev e = ev_from(o); if (!(std::fabs(e.x) < 5000) || !(std::fabs(e.y) < 5000) || !(e.zoom > 0.01 && e.zoom < 20)) continue; e.linear = 0; started = true; no_split_event(b, e);
        double V[MYPAINT_BRUSH_SETTINGS_COUNT]; for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) V[i] = LIB(mypaint_brush_get_base_value(b, (MyPaintBrushSetting)i)); double R = std::exp(V[SET(RADIUS_LOGARITHMIC)]), dt = e.dt <= 0 ? 0.0001 : e.dt; bool limited = V[SET(SMUDGE_TRANSPARENCY)] != 0; if (limited && !slope.empty()) { S(SET(SMUDGE_TRANSPARENCY), 0); V[SET(SMUDGE_TRANSPARENCY)] = 0; limited = false; }
        if (have && !reset && dt <= 5 && std::hypot(e.x - last.x, e.y - last.y) / std::max(0.2, R) * 12 + dt * 80 > 3000) continue;
        L_stroke(b, &s->parent, e); bool was = reset || !have || dt > 5; have = true; last = e; if (was) { CHECK(s->v->empty(), "dab-at-reset", "dabs or pickups by the event that only positions the brush"); reset = false; clear(); continue; }
        double col[3]; hsv(V[SET(COLOR_H)], V[SET(COLOR_S)], V[SET(COLOR_V)], col); std::string ctx = ev_str(e); const Rec27 *pk = 0;
        // what a dab must be, given whether a colour was picked up for it
        auto one = [&](const Rec27 *pick, const Rec27 *dab, double P) {
            auto val = [&](int i) { auto q = slope.find(i); return V[i] + (q == slope.end() ? 0 : q->second * P); }; auto bad = [&](const char *cls, const char *fmt, auto... q) { char m[300]; snprintf(m, sizeof m, fmt, q...); sim_fail(cls, "%s (%s)", m, ctx.c_str()); };
            double sm = val(SET(SMUDGE)), len = val(SET(SMUDGE_LENGTH)), log = val(SET(SMUDGE_LENGTH_LOG)), lim = V[SET(SMUDGE_TRANSPARENCY)], bi = val(SET(SMUDGE_BUCKET)), paint = V[SET(PAINT_MODE)]; if (nb && std::fabs(std::fabs(bi - std::floor(bi)) - 0.5) < 1e-3) { for (auto &q : B) q.sure = false; return; } Bucket &k = B[nb ? (int)cl(std::round(bi), 0, nb - 1) : 0]; bool on = len < 1 && (sm != 0 || slope.count(SET(SMUDGE))); if (std::fabs(len - 1) < 1e-5 && len != 1) { k.sure = false; return; } if (std::fabs(sm) < 1e-6 && sm != 0) { k.sure = false; return; }
            if (!on && pick) bad("needless-pickup", "a colour was picked up with smudge %g and length %g", sm, len);
            if (on) { double uf = std::max(0.01, len), rec = k.recent * uf, th = std::min(1.0, std::pow(0.5 * uf, log) + 1e-16); bool must = rec < th; if (k.sure && std::fabs(rec - th) > 1e-4 * th) { if (must && !pick) bad("missed-pickup", "no colour was picked up with length %g, multiplier %g, %g of the last one left", len, log, rec); if (!must && pick) bad("needless-pickup", "a colour was picked up with length %g, multiplier %g, %g of the last one left", len, log, rec); if (!pick) saved++; } bool first = k.recent == 0; if (!k.sure) return;
                if (pick) { picks++; double want = cl(R * std::exp(val(SET(SMUDGE_RADIUS_LOG))), 0.2, 1000), wp = mix == LEGACY ? -1 : paint; if (std::fabs(pick->radius - want) > 1e-4 * want) bad("pickup-wrong", "picked up with radius %g where the settings give %g", pick->radius, want); if (dab && (std::fabs(pick->x - dab->d.x) > 0.501 || std::fabs(pick->y - dab->d.y) > 0.501)) bad("pickup-wrong", "picked up at %g,%g for a dab at %g,%g", pick->x, pick->y, dab->d.x, dab->d.y); if (std::fabs(pick->paint - wp) > 1e-5) bad("pickup-wrong", "picked up with mixing %g, not %g", pick->paint, wp);
                    bool refuse = (lim > 0 && pick->c[3] < lim) || (lim < 0 && pick->c[3] > -lim); if (std::fabs(pick->c[3] - std::fabs(lim)) < 1e-5 && lim != 0) refuse = !dab; if (refuse && dab) bad("transparency-moved", "a dab was drawn although the alpha picked up is %g and the limit %g", pick->c[3], lim); if (!refuse && !dab) bad("missing-dab", "no dab although the alpha picked up is %g and the limit %g", pick->c[3], lim); if (refuse) { refused++; return; } k.recent = 1; for (int i = 0; i < 4; i++) k.plo[i] = pick->c[i]; if (first) uf = 0; } else { k.recent = rec; if (first) bad("missed-pickup", "nothing picked up for the first dab"); }
                double *c = k.plo, a = c[3];
                if (mix == LEGACY) { for (int i = 0; i < 3; i++) { k.lo[i] = k.hi[i] = uf * k.lo[i] + (1 - uf) * a * c[i]; } k.a = cl(uf * k.a + (1 - uf) * a); }
                else if (a > 0.01) { for (int i = 0; i < 3; i++) { if (mix == ADDITIVE) k.lo[i] = k.hi[i] = uf * k.lo[i] + (1 - uf) * c[i]; else if (uf == 0) { k.lo[i] = k.hi[i] = c[i]; k.wide = 1e-3; } else { k.lo[i] = std::min(k.lo[i], c[i]); k.hi[i] = std::max(k.hi[i], c[i]); } } if (mix == PIGMENT && uf != 0) k.wide = 0.15; k.a = cl(uf * k.a + (1 - uf) * a); } else k.a = (k.a + a) / 2; }
            if (!k.sure) return; dabs++; const Dab &d = dab->d; double w = std::min(1.0, sm), eta = 1, lo[3], hi[3], tol = 2e-4; for (int i = 0; i < 3; i++) lo[i] = hi[i] = col[i];
            if (sm > 0) { eta = cl((1 - w) + w * k.a); mixed++; if (eta < 1e-4) { if (eta == 0) erased++; if (std::fabs(d.a - eta) > 1e-3) bad("alpha-wrong", "target alpha %g where the smudge colour gives %g", d.a, eta); return; }
                for (int i = 0; i < 3; i++) { if (mix == LEGACY) { lo[i] = hi[i] = (w * k.lo[i] + (1 - w) * col[i]) / eta; tol = 2e-4 + 1e-5 / eta; } else if (mix == ADDITIVE) lo[i] = hi[i] = w * k.lo[i] + (1 - w) * col[i]; else if (w == 1 && k.a > 0) { lo[i] = k.lo[i]; hi[i] = k.hi[i]; tol = k.wide + 1e-3; } else { lo[i] = std::min(k.lo[i], col[i]); hi[i] = std::max(k.hi[i], col[i]); tol = 0.15; } } }
            if (std::fabs(d.a - eta) > 2e-4) bad("alpha-wrong", "target alpha %g where smudging by %g with a colour of alpha %g gives %g", d.a, sm, k.a, eta);
            if (mix == PIGMENT && k.a < 1e-3) return; const float g[3] = {d.r, d.g, d.b}; for (int i = 0; i < 3; i++) if (g[i] < lo[i] - tol || g[i] > hi[i] + tol) bad("colour-wrong", "component %d of the dab is %g, smudging by %g gives %g to %g (brush %g, smudge colour %g to %g with alpha %g)", i, g[i], sm, lo[i], hi[i], col[i], k.lo[i], k.hi[i], k.a);
        };
        double P0 = 0; for (auto &q : *s->v) { if (q.pick) { if (pk) { if (!limited) sim_fail("missing-dab", "a pickup was not followed by a dab (%s)", ctx.c_str()); one(pk, 0, 0); } pk = &q; } else { P0 = q.d.lock; one(pk, &q, P0); pk = 0; } } if (pk) { if (!limited) sim_fail("missing-dab", "a pickup was not followed by a dab (%s)", ctx.c_str()); one(pk, 0, 0); }
        if (!s->v->empty()) sim_state(mix64((u64)mix | (u64)nb << 4 | (u64)(long long)(B[0].a * 32) << 12 | (u64)(long long)(B[0].recent * 64) << 24)); s->v->clear();
    }
    if (mixed > 3) sim_nontrivial(); sim_hash(dabs); sim_hash(picks); static const char *nm[] = {"probe_smudged_plain", "probe_smudged_additive", "probe_smudged_pigment"}; sim_count(nm[mix], mixed); sim_count("probe_pickups", picks); sim_count("probe_pickups_saved", saved); sim_count("probe_pickups_refused", refused); sim_count("probe_only_erased", erased); B_unref(b); delete s->v; free(s);
}
static RegProp reg({"C27", "ra", gen, exec});
