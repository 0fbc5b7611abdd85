// C26: dabs come out where and as the settings say. A plain twin brush with the same motion tells where the pen is;
// each feature must add to its dabs what the setting asks for and nothing else.
#include "brush.h"
enum { OFFSETS, BY_SPEED, BY_RANDOM, RADIUS_RANDOM, SNAP, OPACITY, SHAPE, TRACKING, COLOUR, SOFT_EDGE, NMODES };
static const int CARRY[3] = {SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE)}; static const int INP[3] = {MYPAINT_BRUSH_INPUT_PRESSURE, MYPAINT_BRUSH_INPUT_DIRECTION_ANGLE, MYPAINT_BRUSH_INPUT_TILT_ASCENSION};
static const std::vector<std::vector<int>> FEAT = {{SET(OFFSET_X), SET(OFFSET_Y), SET(OFFSET_ANGLE), SET(OFFSET_ANGLE_ASC), SET(OFFSET_ANGLE_VIEW), SET(OFFSET_ANGLE_2), SET(OFFSET_ANGLE_2_ASC), SET(OFFSET_ANGLE_2_VIEW), SET(OFFSET_ANGLE_ADJ), SET(OFFSET_MULTIPLIER)}, {SET(OFFSET_BY_SPEED), SET(OFFSET_BY_SPEED_SLOWNESS)}, {SET(OFFSET_BY_RANDOM)}, {SET(RADIUS_BY_RANDOM)}, {SET(SNAP_TO_PIXEL)}, {SET(OPAQUE), SET(OPAQUE_MULTIPLY), SET(OPAQUE_LINEARIZE), SET(ERASER)}, {SET(ELLIPTICAL_DAB_RATIO), SET(ELLIPTICAL_DAB_ANGLE), SET(HARDNESS), SET(SOFTNESS), SET(RADIUS_LOGARITHMIC)}, {SET(SLOW_TRACKING), SET(SLOW_TRACKING_PER_DAB), SET(TRACKING_NOISE)}, {SET(COLOR_H), SET(COLOR_S), SET(COLOR_V), SET(CHANGE_COLOR_H), SET(CHANGE_COLOR_HSV_S), SET(CHANGE_COLOR_V), SET(CHANGE_COLOR_L), SET(CHANGE_COLOR_HSL_S)}, {SET(ANTI_ALIASING)}};
static const int PLAIN[] = {SET(RADIUS_LOGARITHMIC), SET(DABS_PER_ACTUAL_RADIUS), SET(DABS_PER_BASIC_RADIUS), SET(DABS_PER_SECOND), SET(DIRECTION_FILTER), SET(HARDNESS), SET(OPAQUE)};
static bool has(const std::vector<int> &v, int i) { return std::find(v.begin(), v.end(), i) != v.end(); }
static bool curved(int id) { return id != SET(OPAQUE_LINEARIZE) && id != SET(ELLIPTICAL_DAB_RATIO) && id != SET(SLOW_TRACKING) && id != SET(TRACKING_NOISE) && id != SET(COLOR_H) && id != SET(COLOR_S) && id != SET(COLOR_V); }
static void gen(Rng &r, Plan &p, int tier) {
    int m = r.pick(std::vector<int>{OFFSETS, OFFSETS, OFFSETS, BY_SPEED, BY_RANDOM, RADIUS_RANDOM, SNAP, OPACITY, OPACITY, SHAPE, TRACKING, TRACKING, COLOUR, COLOUR, SOFT_EDGE}); p.cfg["mode"] = m;
    auto set = [&](const char *k, int id, double v) { p.add(k, {(double)id, f32(v)}); }; double rl = r.chance(0.1) ? r.uni(-2, 6.5) : r.uni(-0.7, 3), rad = std::min(1000.0, std::max(0.2, std::exp(rl))); set("set", SET(RADIUS_LOGARITHMIC), rl); set("set", SET(DABS_PER_ACTUAL_RADIUS), r.chance(0.2) ? 0 : r.uni(0.3, 5)); set("set", SET(DABS_PER_BASIC_RADIUS), r.chance(0.6) ? 0 : r.uni(0.3, 4)); if (r.chance(0.4)) set("set", SET(DABS_PER_SECOND), r.uni(0, 80)); set("set", SET(DIRECTION_FILTER), r.chance(0.5) ? 0 : r.uni(0, 10)); set("set", SET(HARDNESS), r.chance(0.3) ? 1 : r.u()); set("set", SET(OPAQUE), r.chance(0.3) ? 1 : r.uni(0.1, 1));
    for (int id : FEAT[m]) { const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info((MyPaintBrushSetting)id); if (r.chance(m == OFFSETS ? 0.6 : 0.25)) continue; double lo = i->min, hi = i->max, v = r.chance(0.1) ? hi : r.chance(0.1) ? lo : r.uni(lo, hi); if (id == SET(OFFSET_MULTIPLIER)) v = r.chance(0.1) ? r.uni(-2, 9) : r.uni(-1, 1.5); else if (m == OFFSETS && id != SET(OFFSET_ANGLE_ADJ)) v = r.uni(-4, 4); if (id == SET(OFFSET_BY_RANDOM)) v = r.uni(-1, 5); if (id == SET(ELLIPTICAL_DAB_RATIO)) v = r.uni(1, 8); if (id == SET(SNAP_TO_PIXEL)) v = r.chance(0.6) ? 1 : r.u(); if (id == SET(RADIUS_BY_RANDOM)) v = r.uni(0, 1.5); if (id == SET(TRACKING_NOISE)) v = r.chance(0.5) ? 0 : r.uni(0, 2); if (id == SET(SLOW_TRACKING) && r.chance(0.4)) v = 0; if (id == SET(RADIUS_LOGARITHMIC)) v = r.chance(0.2) ? r.uni(-3, 0) : r.uni(-0.7, 3); set("feat", id, v); if (curved(id) && r.chance(0.25)) p.add("slope", {(double)id, f32(r.uni(-1, 1) * (id == SET(ELLIPTICAL_DAB_ANGLE) ? 90 : id == SET(OFFSET_ANGLE_ADJ) ? 120 : 1))}); }
    int lin = r.chance(0.3); int n = r.range(4, tier ? 40 : 20); EvState es; EvGen eg; eg.area = r.pick(std::vector<double>{6, 25, 80}) * std::max(1.0, std::min(20.0, rad * 0.4)); eg.cx = r.chance(0.6) ? 0 : r.uni(-900, 900); eg.cy = r.chance(0.6) ? 0 : r.uni(-900, 900); eg.gap5 = 0.02; eg.speed = r.pick(std::vector<double>{0.3, 1, 4});
    for (int i = 0; i < n; i++) { Ev e = gen_ev(r, es, eg); e.linear = lin; p.add("ev", ev_args(e)); if (r.chance(0.03)) p.add("reset"); }
}
static inline double mod(double a, double n) { return a - n * std::floor(a / n); }
static inline double cs(double d) { return std::cos(d * M_PI / 180); } static inline double sn(double d) { return std::sin(d * M_PI / 180); }
static inline double cl(double v, double a = 0, double b = 1) { return std::max(a, std::min(b, v)); }
static inline double ulpf(double v) { return std::ldexp(1.0, (int)std::floor(std::log2(std::max(1e-3, std::fabs(v)))) - 23); }
static void to_hsv(const double *c, double *o) { double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn, h = 0; if (d > 0) h = mx == c[0] ? (c[1] - c[2]) / d : mx == c[1] ? 2 + (c[2] - c[0]) / d : 4 + (c[0] - c[1]) / d; o[0] = mod(h / 6, 1); o[1] = mx > 0 ? d / mx : 0; o[2] = mx; }
static void from_hsv(double h, double s, double v, double *o) { h = mod(h, 1) * 6; s = cl(s); v = cl(v); for (int i = 0; i < 3; i++) { double k = mod((i == 0 ? 5 : i == 1 ? 3 : 1) + h, 6); o[i] = v - v * s * std::max(0.0, std::min(std::min(k, 4 - k), 1.0)); } }
static void to_hsl(const double *c, double *o) { double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn, t[3]; to_hsv(c, t); o[0] = t[0]; o[2] = (mx + mn) / 2; o[1] = d <= 0 ? 0 : d / (1 - std::fabs(2 * o[2] - 1)); }
static void from_hsl(double h, double s, double l, double *o) { h = mod(h, 1); s = cl(s); l = cl(l); double a = s * std::min(l, 1 - l); for (int i = 0; i < 3; i++) { double k = mod((i == 0 ? 0 : i == 1 ? 8 : 4) + h * 12, 12); o[i] = l - a * std::max(-1.0, std::min(std::min(k - 3, 9 - k), 1.0)); } }
static void exec(const Plan &p) {
    int mode = std::max(0, std::min((int)NMODES - 1, p.ci("mode"))); MyPaintBrush *A = brush_new(0), *Bf = brush_new(0);
    for (MyPaintBrush *b : {A, Bf}) { apply_brush_op(b, Op{"defaults"}); auto S = [&](int id, double v) { apply_brush_op(b, Op{"set", {(double)id, v}}); }; for (int id = 0; id < MYPAINT_BRUSH_SETTINGS_COUNT; id++) for (int in = 0; in < MYPAINT_BRUSH_INPUTS_COUNT; in++) { InLib l; mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, 0); } S(SET(SMUDGE), 0); S(SET(ANTI_ALIASING), 0); S(SET(OPAQUE_LINEARIZE), 0); S(SET(SLOW_TRACKING), 0); S(SET(OPAQUE_MULTIPLY), 1); for (int i = 0; i < 3; i++) { S(CARRY[i], 0); apply_brush_op(b, Op{"map", {(double)CARRY[i], (double)INP[i], 0, 0, 1, 1}}); } }
    double mx = 0, my = 0; u64 lagged = 0, shaken = 0, shx = 0, shy = 0; std::map<int, double> slope; double V[MYPAINT_BRUSH_SETTINGS_COUNT]; bool started = false; RecSurface *sa = rec_new(0, 1), *sb = rec_new(0, 1); u64 dabs = 0, checked = 0, mirrored = 0, limited = 0; bool have = false, reset = true; double bx0 = 0, bx1 = 0, by0 = 0, by1 = 0, vmax = 0; u64 since = 0, moved = 0; Ev last{}; double slow[2] = {0, 0};
    for (auto &o : p.ops) {
        if (o.k == "reset") { sim_note("brush_reset"); { InLib l; mypaint_brush_reset(A); } { InLib l; mypaint_brush_reset(Bf); } reset = true; continue; }
        int id = o.iarg(0, -1); double v = o.arg(1);
        if (o.k == "set" || o.k == "feat" || o.k == "slope") { if (started || id < 0 || id >= MYPAINT_BRUSH_SETTINGS_COUNT || !(std::fabs(v) < 1e4)) continue; if (o.k == "set") { bool ok = false; for (int q : PLAIN) ok |= q == id; if (!ok) continue; if (id == SET(DABS_PER_ACTUAL_RADIUS) || id == SET(DABS_PER_BASIC_RADIUS)) v = cl(v, 0, 6); if (id == SET(DABS_PER_SECOND)) v = cl(v, 0, 80); apply_brush_op(A, Op{"set", {(double)id, v}}); apply_brush_op(Bf, Op{"set", {(double)id, v}}); }
            else { if (!has(FEAT[mode], id)) continue; if (o.k == "feat") { if (id == SET(ELLIPTICAL_DAB_RATIO)) v = cl(v, 0, 10); if (id == SET(TRACKING_NOISE)) v = cl(v, 0, 4); apply_brush_op(Bf, Op{"set", {(double)id, v}}); } else if (curved(id)) { slope[id] = (float)v; apply_brush_op(Bf, Op{"map", {(double)id, (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 1, v}}); } } continue; }
        if (o.k != "ev") continue; Ev e = ev_from(o); if (!(std::fabs(e.x) < 5000) || !(std::fabs(e.y) < 5000) || !(std::fabs(e.rot) < 3.13) || !(e.zoom > 0.01 && e.zoom < 20)) continue;
        if (!started) { started = true; for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) V[i] = LIB(mypaint_brush_get_base_value(Bf, (MyPaintBrushSetting)i)); } no_split_event(A, e); double R = std::exp(V[SET(RADIUS_LOGARITHMIC)]), Rc = cl(R, 0.2, 1000), dt = e.dt <= 0 ? 0.0001 : e.dt; { double far = std::hypot(e.x - last.x, e.y - last.y) + (mode == TRACKING ? 400 : 0); if (have && !reset && dt <= 5 && far / Rc * 12 * (mode == SHAPE ? 10 : 1) + dt * 80 > 4000) continue; }
        size_t a0 = sa->dabs->size(), b0 = sb->dabs->size(); R_ev(A, sa, e, 0); R_ev(Bf, sb, e, 0); const RecDab *da = sa->dabs->data() + a0, *db = sb->dabs->data() + b0; size_t na = sa->dabs->size() - a0, nb = sb->dabs->size() - b0; bool was = reset || !have || dt > 5; std::string ctx = ev_str(e); double noise = mode == TRACKING ? 7.0 * R * std::max(0.0, V[SET(TRACKING_NOISE)]) : 0;
        if (was && noise > 0 && reset && !(dt > 5) && have) { /* the skip may hold the reset back, never further than this event */ } if (was) { mx = e.x; my = e.y; if (noise > 0) { mx = B_st(Bf, MYPAINT_BRUSH_STATE_X); my = B_st(Bf, MYPAINT_BRUSH_STATE_Y); } reset = false; have = true; bx0 = bx1 = e.x; by0 = by1 = e.y; vmax = 0; since = 0; slow[0] = slow[1] = 0; last = e; sa->dabs->clear(); sb->dabs->clear(); continue; }
        double sx = (e.x - last.x), sy = (e.y - last.y), rot = mod(e.rot * 180 / M_PI + 180, 360) - 180; vmax = std::max(vmax, std::hypot(sx, sy) / dt * e.zoom); bx0 = std::min(bx0, (double)e.x); bx1 = std::max(bx1, (double)e.x); by0 = std::min(by0, (double)e.y); by1 = std::max(by1, (double)e.y); last = e;
        if (mode == TRACKING && noise <= 0) { // the brush follows the pen with the lag asked for, each dab follows the brush
            double T = V[SET(SLOW_TRACKING)], fac = 1 - (T <= 0.001 ? 0 : std::exp(-100 * dt / T)), nx = mx + (e.x - mx) * fac, ny = my + (e.y - my) * fac, tol = 8 * (ulpf(std::max((double)std::fabs(e.x), std::fabs(mx))) + ulpf(std::max((double)std::fabs(e.y), std::fabs(my)))) + 1e-5 * (std::hypot(e.x - mx, e.y - my) + 1); bool edge = std::fabs(T - 0.001) < 1e-6; double gx = B_st(Bf, MYPAINT_BRUSH_STATE_X), gy = B_st(Bf, MYPAINT_BRUSH_STATE_Y);
            tol *= 1 + nb * 0.05; if (!edge) CHECK(std::fabs(gx - nx) <= tol && std::fabs(gy - ny) <= tol, "lag-wrong", "the brush went from %.7g,%.7g to %.7g,%.7g where slow tracking of %g gives %.7g,%.7g (%s)", mx, my, gx, gy, T, nx, ny, ctx.c_str());
            double len = std::hypot(gx - mx, gy - my), slopeTd = slope.count(SET(SLOW_TRACKING_PER_DAB)) ? slope[SET(SLOW_TRACKING_PER_DAB)] : 0; lagged++;
            for (size_t k = 0; k < nb; k++) { const Dab &d = db[k].d; double Td = V[SET(SLOW_TRACKING_PER_DAB)] + slopeTd * d.lock; /* the curve follows the pressure, which the dab carries */ if (std::fabs(Td - 0.001) <= 1e-4 + std::fabs(slopeTd) * 1e-4) continue; double f = 1 - (Td <= 0.001 ? 0 : std::exp(-1 / Td)); if (f < 1 && !k) continue; double X = d.x, Y = d.y, t2 = tol; if (f < 1) { const Dab &q = db[k - 1].d; X = q.x + (d.x - q.x) / f; Y = q.y + (d.y - q.y) / f; t2 = (tol + std::fabs(slopeTd) * 1e-5 * std::hypot(d.x - q.x, d.y - q.y) / f) / f * 3; }
                double al = len > 0 ? ((X - mx) * (gx - mx) + (Y - my) * (gy - my)) / len : 0, side = len > 0 ? std::fabs((X - mx) * (gy - my) - (Y - my) * (gx - mx)) / len : std::hypot(X - mx, Y - my); CHECK(side <= t2 && al >= -t2 && al <= len + t2, "dab-lag-wrong", "dab %zu at %.7g,%.7g follows a brush at %.7g,%.7g, which is not on its way from %.7g,%.7g to %.7g,%.7g (slow tracking per dab %g, %s)", k, d.x, d.y, X, Y, mx, my, gx, gy, Td, ctx.c_str()); }
            mx = gx; my = gy; }
        if (mode == TRACKING && noise > 0 && V[SET(SLOW_TRACKING)] <= 0 && V[SET(TRACKING_NOISE)] * R > 0.01 * (1 + std::fabs(e.x) + std::fabs(e.y)) * 1e-2) { double gx = B_st(Bf, MYPAINT_BRUSH_STATE_X), gy = B_st(Bf, MYPAINT_BRUSH_STATE_Y); if (gx != mx || gy != my) { shaken++; shx += std::fabs(gx - e.x) > 0.01 * noise / 7; shy += std::fabs(gy - e.y) > 0.01 * noise / 7; } mx = gx; my = gy; }
        bool twin = mode != SHAPE && mode != TRACKING; if (twin) CHECK(na == nb, "other-dabs", "%zu dabs with the feature and %zu without (%s)", nb, na, ctx.c_str());
        double tau = std::max(0.002, std::exp(V[SET(OFFSET_BY_SPEED_SLOWNESS)] * 0.01) - 1), from_x = e.x - sx, from_y = e.y - sy;
        double pos = std::max(std::fabs(e.x), std::fabs(e.y)) + 300, eps = 2e-4 + pos * 3e-7;
        for (size_t k = 0; k < nb; k++) {
            const Dab &d = db[k].d; dabs++; since++; double P = d.lock; auto val = [&](int i) { auto s = slope.find(i); return V[i] + (s == slope.end() ? 0 : s->second * P); }; auto bad = [&](const char *cls, const char *fmt, auto... q) { char m[300]; snprintf(m, sizeof m, fmt, q...); sim_fail(cls, "dab %zu of %s: %s", k, ctx.c_str(), m); };
            if (!(d.radius > 0 && d.radius <= 1000.001) || !(d.opaque >= 0 && d.opaque <= 1) || !(d.hardness <= 1) || !(d.softness >= 0 && d.softness <= 1)) bad("out-of-range", "radius %g opaque %g hardness %g softness %g", d.radius, d.opaque, d.hardness, d.softness);
            double x = 0, y = 0; if (twin) { x = da[k].d.x; y = da[k].d.y; const Dab &a = da[k].d; if (mode != RADIUS_RANDOM && mode != OPACITY && std::fabs(a.opaque - d.opaque) > 1e-6) bad("other-opacity", "opacity %g became %g", a.opaque, d.opaque); if (mode != RADIUS_RANDOM && mode != SNAP && mode != SOFT_EDGE && std::fabs(a.radius - d.radius) > 1e-5 * a.radius) bad("other-radius", "radius %g became %g", a.radius, d.radius); if (mode > BY_RANDOM && mode != SNAP && std::max(std::fabs(d.x - x), std::fabs(d.y - y)) > 1e-6) bad("other-place", "moved from %g,%g to %g,%g", x, y, d.x, d.y); if (mode != COLOUR && (a.r != d.r || a.g != d.g || a.b != d.b)) bad("other-colour", "colour %g,%g,%g became %g,%g,%g", a.r, a.g, a.b, d.r, d.g, d.b); if (std::fabs(a.radius - Rc) > 1e-5 * Rc) bad("other-radius", "radius %g where the setting gives %g", a.radius, Rc); if (std::fabs(a.opaque - cl(V[SET(OPAQUE)])) > 1e-6 && mode != OPACITY) bad("other-opacity", "opacity %g where the setting is %g", a.opaque, V[SET(OPAQUE)]); if (std::fabs(a.hardness - cl(V[SET(HARDNESS)])) > 1e-6) bad("other-hardness", "hardness %g where the setting is %g", a.hardness, V[SET(HARDNESS)]); }
            switch (mode) {
            case OFFSETS: { bool needdir = val(SET(OFFSET_ANGLE)) != 0 || val(SET(OFFSET_ANGLE_2)) > 0; if (needdir && k + 1 >= nb) break; double dir = needdir ? db[k + 1].d.colorize - rot : 0, asc = d.posterize - rot, adj = val(SET(OFFSET_ANGLE_ADJ)), mul = std::exp(val(SET(OFFSET_MULTIPLIER))) * R; int flip = since % 2 ? 1 : -1; double f2 = flip; double dx = val(SET(OFFSET_X)), dy = val(SET(OFFSET_Y)), q;
                if ((q = val(SET(OFFSET_ANGLE)))) { dx += cs(dir - 90 + adj) * q; dy += sn(dir - 90 + adj) * q; } if ((q = val(SET(OFFSET_ANGLE_ASC)))) { dx += cs(asc - rot + adj) * q; dy += sn(asc - rot + adj) * q; } if ((q = val(SET(OFFSET_ANGLE_VIEW)))) { dx += cs(-rot - adj) * q; dy += sn(-rot - adj) * q; }
                if ((q = std::max(0.0, val(SET(OFFSET_ANGLE_2))))) { dx += cs(dir - 90 + adj * f2) * q * f2; dy += sn(dir - 90 + adj * f2) * q * f2; mirrored++; } if ((q = std::max(0.0, val(SET(OFFSET_ANGLE_2_ASC))))) { dx += cs(asc - rot + adj * f2) * q * f2; dy += sn(asc - rot + adj * f2) * q * f2; mirrored++; } if ((q = std::max(0.0, val(SET(OFFSET_ANGLE_2_VIEW))))) { dx += cs(-rot - adj) * q * f2; dy += sn(-rot - adj) * q * f2; mirrored++; }
                dx *= mul; dy *= mul; if (std::fabs(dx) > 3240 || std::fabs(dy) > 3240) limited++; double tol0 = (std::fabs(cl(dx, -3240, 3240)) + std::fabs(cl(dy, -3240, 3240))) * 2e-4 + mul * 2e-3, tx = eps + 1e-3 + (std::fabs(dx) > 3240 + 3 * tol0 ? 0 : tol0), ty = eps + 1e-3 + (std::fabs(dy) > 3240 + 3 * tol0 ? 0 : tol0); dx = cl(dx, -3240, 3240); dy = cl(dy, -3240, 3240); if (!std::isfinite(mul)) break; if (std::fabs(d.x - x - dx) > tx || std::fabs(d.y - y - dy) > ty) bad("offset-wrong", "the pen is at %.7g,%.7g, the settings ask for an offset of %.6g,%.6g, the dab is off by %.6g,%.6g", x, y, dx, dy, d.x - x, d.y - y); checked++; break; }
            case BY_SPEED: { if (!slope.count(SET(OFFSET_BY_SPEED_SLOWNESS))) { double len = std::hypot(sx, sy), u = 1.2e-7 * (pos + len) * 3, q = val(SET(OFFSET_BY_SPEED)), off[2] = {d.x - x, d.y - y}, v[2] = {sx / dt * e.zoom, sy / dt * e.zoom}, f = len > 0 ? ((x - from_x) * sx + (y - from_y) * sy) / (len * len) : 0.5, df = len > 0 ? u / len + 1e-4 : 0.5; for (int c = 0; c < 2; c++) { double a = v[c] + (slow[c] - v[c]) * std::exp(-std::max(0.0, f - df) * dt / tau), b = v[c] + (slow[c] - v[c]) * std::exp(-std::min(1.0, f + df) * dt / tau), lo = std::min(a * q, b * q) * 0.1 / e.zoom, hi = std::max(a * q, b * q) * 0.1 / e.zoom, tol = eps + std::fabs(q) * 0.1 / e.zoom * (0.01 * (std::fabs(v[c]) + vmax * 0.3) + (len > 0 ? std::hypot(v[0], v[1]) * std::min(1.0, u * (nb + 1) / len) : 0)); if (off[c] < lo - tol || off[c] > hi + tol) bad("offset-wrong", "off by %.6g,%.6g where the speed so far gives %.6g to %.6g along %c", off[0], off[1], lo, hi, "xy"[c]); } moved++; }
                double q = val(SET(OFFSET_BY_SPEED)), most = std::fabs(q) * 0.1 * vmax * 1.02 / e.zoom + eps; if (std::fabs(d.x - x) > most || std::fabs(d.y - y) > most) bad("offset-wrong", "off by %.6g,%.6g where the speed gives at most %.6g", d.x - x, d.y - y, most); checked++; break; }
            case BY_RANDOM: { double q = std::max(0.0, val(SET(OFFSET_BY_RANDOM))) * R; if (std::fabs(d.x - x) > 3.47 * q + eps || std::fabs(d.y - y) > 3.47 * q + eps) bad("offset-wrong", "off by %.6g,%.6g where the noise has a deviation of %.6g", d.x - x, d.y - y, q); if (q > 20 * eps && (std::fabs(d.x - x) > q / 100 || std::fabs(d.y - y) > q / 100)) moved++; if (q > 20 * eps) checked++; break; }
            case RADIUS_RANDOM: { double q = std::fabs(val(SET(RADIUS_BY_RANDOM))), lo = cl(R * std::exp(-3.47 * q), 0.2, 1000), hi = cl(R * std::exp(3.47 * q), 0.2, 1000); if (d.radius < lo * 0.9999 || d.radius > hi * 1.0001) bad("radius-wrong", "radius %g outside %g to %g", d.radius, lo, hi); double want = da[k].d.opaque * std::min(1.0, (Rc / d.radius) * (Rc / d.radius)); if (std::fabs(d.opaque - want) > 2e-4) bad("opacity-wrong", "opacity %g at radius %g, where %g at radius %g calls for %g", d.opaque, d.radius, da[k].d.opaque, Rc, want); if (q > 0.01 && std::fabs(d.radius - Rc) > 1e-4 * Rc) moved++; if (q > 0.01 && R > 0.25 && R < 900) checked++; break; }
            case SNAP: { double q = val(SET(SNAP_TO_PIXEL)); if (!(q >= 0 && q <= 1)) break; double wx = q > 0 ? x + (std::floor(x) + 0.5 - x) * q : x, wy = q > 0 ? y + (std::floor(y) + 0.5 - y) * q : y, sr = std::max(0.5, std::floor(Rc * 2 + 0.5) / 2), wr = q > 0 ? Rc + (sr - Rc) * q : Rc; bool edge = std::fabs(Rc * 2 + 0.5 - std::floor(Rc * 2 + 0.5)) < 1e-4; if (std::fabs(d.x - wx) > eps || std::fabs(d.y - wy) > eps) bad("snap-wrong", "at %.7g,%.7g where snapping %.7g,%.7g by %g gives %.7g,%.7g", d.x, d.y, x, y, q, wx, wy); if (!edge && std::fabs(d.radius - wr) > 2e-4 * (1 + wr)) bad("snap-wrong", "radius %g where snapping %g by %g gives %g", d.radius, Rc, q, wr); checked++; break; }
            case OPACITY: { double want = cl(std::max(0.0, val(SET(OPAQUE))) * val(SET(OPAQUE_MULTIPLY))), lin = V[SET(OPAQUE_LINEARIZE)]; if (lin > 0) { double n = 1 + lin * (std::max(1.0, 2 * (V[SET(DABS_PER_ACTUAL_RADIUS)] + V[SET(DABS_PER_BASIC_RADIUS)])) - 1); want = 1 - std::pow(1 - want, 1 / n); } if (lin >= 0 && std::fabs(d.opaque - want) > 2e-4) bad("opacity-wrong", "opacity %g where the settings give %g", d.opaque, want); double er = val(SET(ERASER)); if (std::fabs(d.a - (1 - er)) > 1e-5) bad("eraser-wrong", "target alpha %g where the eraser is at %g", d.a, er); checked++; break; }
            case SHAPE: { double rw = cl(std::exp(val(SET(RADIUS_LOGARITHMIC))), 0.2, 1000); if (std::fabs(d.radius - rw) > 2e-5 * rw) bad("other-radius", "radius %g where the setting gives %g", d.radius, rw); double w = mod(val(SET(ELLIPTICAL_DAB_ANGLE)) - rot, 180), g = mod(d.angle, 180), df = std::fabs(w - g); if (std::min(df, 180 - df) > 0.01) bad("shape-wrong", "angle %g where the setting is %g and the view is turned by %g", d.angle, val(SET(ELLIPTICAL_DAB_ANGLE)), rot); if (std::fabs(d.ratio - val(SET(ELLIPTICAL_DAB_RATIO))) > 1e-5 * (1 + std::fabs(d.ratio))) bad("shape-wrong", "ratio %g where the setting is %g", d.ratio, val(SET(ELLIPTICAL_DAB_RATIO))); if (std::fabs(d.hardness - cl(val(SET(HARDNESS)))) > 1e-5 || std::fabs(d.softness - cl(val(SET(SOFTNESS)))) > 1e-5) bad("shape-wrong", "hardness %g softness %g where the settings are %g and %g", d.hardness, d.softness, val(SET(HARDNESS)), val(SET(SOFTNESS))); checked++; break; }
            case TRACKING: if (d.x < bx0 - noise - eps || d.x > bx1 + noise + eps || d.y < by0 - noise - eps || d.y > by1 + noise + eps) bad("off-track", "at %.7g,%.7g, outside of where the pen has been (%.7g..%.7g, %.7g..%.7g)", d.x, d.y, bx0, bx1, by0, by1); checked++; break;
            case SOFT_EDGE: { double m = std::max(0.0, val(SET(ANTI_ALIASING))), h = da[k].d.hardness, fade = Rc * (1 - h), opt = Rc - fade / 2, got = d.radius * (1 - d.hardness), gopt = d.radius - got / 2, tol = 3e-4 * (1 + Rc + m) + (m > 0 ? 4e-7 * Rc * Rc / m : 0); if (m > 0 && 4e-7 * Rc > 0.1 * m) break; if (std::fabs(got - std::max(fade, m)) > tol) bad("edge-wrong", "fades over %.6g pixels where the plain dab does over %.6g and %.6g are the least allowed", got, fade, m); if (std::fabs(gopt - opt) > tol) bad("edge-wrong", "optical radius %.6g became %.6g", opt, gopt); if (m <= fade && std::fabs(d.hardness - h) > 1e-6) bad("edge-wrong", "hardness %g became %g without need", h, d.hardness); if (m > fade) moved++; checked++; break; }
            case COLOUR: { double c[3], t[3]; from_hsv(V[SET(COLOR_H)], V[SET(COLOR_S)], V[SET(COLOR_V)], c); double ch = val(SET(CHANGE_COLOR_H)), chs = val(SET(CHANGE_COLOR_HSV_S)), cv = val(SET(CHANGE_COLOR_V)), l = val(SET(CHANGE_COLOR_L)), ls = val(SET(CHANGE_COLOR_HSL_S)); bool any = ch || chs || cv || l || ls; if (e.linear && any) for (double &q : c) q = std::pow(cl(q), 1 / 2.2); if (ch || chs || cv) { to_hsv(c, t); from_hsv(t[0] + ch, t[1] + t[1] * t[2] * chs, t[2] + cv, c); } double wide = e.linear ? 6e-3 : 2e-3; if (l || ls) { to_hsl(c, t); t[2] += l; if (t[1] > 0 && (t[2] > 0.999 || t[2] < 0.001)) wide *= 3; from_hsl(t[0], t[1] + t[1] * std::min(std::fabs(1 - t[2]), std::fabs(t[2])) * 2 * ls, t[2], c); }
                if (e.linear && any) for (double &q : c) q = std::pow(cl(q), 2.2);
                if (std::fabs(d.r - c[0]) > wide || std::fabs(d.g - c[1]) > wide || std::fabs(d.b - c[2]) > wide) bad("colour-wrong", "colour %g,%g,%g where the settings give %g,%g,%g", d.r, d.g, d.b, c[0], c[1], c[2]); checked++; break; }
            }
            if ((dabs & 15) == 0) sim_state(mix64((u64)mode | (u64)(long long)((d.x - x) * 2) << 8 | (u64)(long long)(d.radius * 4) << 32));
        }
        for (int c = 0; c < 2; c++) { double v = (c ? sy : sx) / dt * e.zoom; slow[c] = v + (slow[c] - v) * std::exp(-dt / tau); } sa->dabs->clear(); sb->dabs->clear();
    }
    sim_count("probe_lagging_brush", lagged); if (mode == TRACKING && shaken > 12) CHECK(shx * 2 > shaken && shy * 2 > shaken, "no-noise", "tracking noise moved the brush %llu times of %llu in x and %llu in y", (unsigned long long)shx, (unsigned long long)shaken, (unsigned long long)shy);
    if ((mode == BY_RANDOM || mode == RADIUS_RANDOM) && checked > 12) CHECK(moved * 2 > checked, "no-noise", "%llu of %llu dabs were moved or resized where noise was asked for", (unsigned long long)moved, (unsigned long long)checked);
    if (checked > 3) sim_nontrivial(); sim_hash(dabs); sim_hash(checked); static const char *nm[] = {"probe_offset_dabs", "probe_speed_offset_dabs", "probe_noisy_dabs", "probe_noisy_radius_dabs", "probe_snapped_dabs", "probe_opacity_dabs", "probe_shaped_dabs", "probe_tracked_dabs", "probe_coloured_dabs", "probe_softened_dabs"}; sim_count(nm[mode], checked); sim_count("probe_mirrored_offsets", mirrored); sim_count("probe_limited_offsets", limited); B_unref(A); B_unref(Bf); rec_free(sa); rec_free(sb);
}
static RegProp reg({"C26", "ra", gen, exec});
