// C25: the inputs of the brush dynamics describe the pen. Five settings that are handed to the surface untouched carry
// five of the inputs out, through curves that are the identity; a model of the motion says what they may be.
#include "brush.h"
static const int CARRY[5] = {SET(LOCK_ALPHA), SET(COLORIZE), SET(POSTERIZE), SET(POSTERIZE_NUM), SET(PAINT_MODE)};
static inline float carried(const Dab &d, int i) { return i == 0 ? d.lock : i == 1 ? d.colorize : i == 2 ? d.posterize : i == 3 ? d.posterize_num : d.paint; }
#define IN(n) MYPAINT_BRUSH_INPUT_##n
static const int MAY[] = {SET(RADIUS_LOGARITHMIC), SET(DABS_PER_ACTUAL_RADIUS), SET(DABS_PER_BASIC_RADIUS), SET(DABS_PER_SECOND), SET(DIRECTION_FILTER), SET(SPEED1_SLOWNESS), SET(SPEED2_SLOWNESS), SET(SPEED1_GAMMA), SET(SPEED2_GAMMA), SET(STROKE_THRESHOLD), SET(STROKE_DURATION_LOGARITHMIC), SET(STROKE_HOLDTIME), SET(GRIDMAP_SCALE), SET(GRIDMAP_SCALE_X), SET(GRIDMAP_SCALE_Y), SET(CUSTOM_INPUT), SET(CUSTOM_INPUT_SLOWNESS), SET(PRESSURE_GAIN_LOG), SET(OPAQUE), SET(HARDNESS), SET(COLOR_V)};
static void gen(Rng &r, Plan &p, int tier) {
    std::vector<int> in; auto want = [&](std::initializer_list<int> l) { for (int i : l) if (std::find(in.begin(), in.end(), i) == in.end() && in.size() < 5) in.push_back(i); };
    switch (r.range(0, 5)) { case 0: want({IN(PRESSURE), IN(STROKE)}); break; case 1: want({IN(DIRECTION), IN(DIRECTION_ANGLE)}); break; case 2: want({IN(TILT_ASCENSION), IN(ATTACK_ANGLE), IN(DIRECTION_ANGLE)}); break; case 3: want({IN(SPEED1), IN(SPEED2)}); break; }
    while (in.size() < 5) want({r.range(0, MYPAINT_BRUSH_INPUTS_COUNT - 1)}); for (int i = 0; i < 5; i++) p.cfg[std::string("in") + (char)('0' + i)] = in[i];
    auto set = [&](int id, double v) { p.add("set", {(double)id, f32(v)}); }; double rl = r.uni(-0.7, 3), rad = std::exp(rl); set(SET(RADIUS_LOGARITHMIC), rl); set(SET(DABS_PER_ACTUAL_RADIUS), r.chance(0.2) ? 0 : r.uni(0.3, 5)); set(SET(DABS_PER_BASIC_RADIUS), r.chance(0.6) ? 0 : r.uni(0.3, 4)); if (r.chance(0.4)) set(SET(DABS_PER_SECOND), r.uni(0, 80));
    set(SET(DIRECTION_FILTER), r.chance(0.5) ? 0 : r.uni(0, 10)); set(SET(SPEED1_SLOWNESS), r.chance(0.5) ? 0 : r.uni(0, 0.2)); set(SET(SPEED2_SLOWNESS), r.chance(0.5) ? 0 : r.uni(0, 3)); if (r.chance(0.7)) set(SET(SPEED1_GAMMA), r.uni(-8, 8)); if (r.chance(0.7)) set(SET(SPEED2_GAMMA), r.uni(-8, 8));
    if (r.chance(0.6)) set(SET(STROKE_THRESHOLD), r.uni(0, 0.5)); set(SET(STROKE_DURATION_LOGARITHMIC), r.uni(-1, 6)); set(SET(STROKE_HOLDTIME), r.chance(0.4) ? 10 : r.chance(0.1) ? r.uni(9.6, 9.89) : r.chance(0.1) ? r.uni(9.91, 10) : r.chance(0.5) ? 0 : r.uni(0, 9.8)); set(SET(GRIDMAP_SCALE), r.chance(0.4) ? 0 : r.uni(-3, 2)); if (r.chance(0.5)) set(SET(GRIDMAP_SCALE_X), r.uni(0, 4)); if (r.chance(0.5)) set(SET(GRIDMAP_SCALE_Y), r.uni(0, 4));
    set(SET(CUSTOM_INPUT), r.uni(-5, 5)); set(SET(CUSTOM_INPUT_SLOWNESS), r.chance(0.4) ? 0 : r.uni(0, 10)); if (r.chance(0.3)) set(SET(PRESSURE_GAIN_LOG), r.uni(-1.8, 1.8));
    int n = r.range(4, tier ? 50 : 25); EvState es; EvGen eg; eg.area = r.pick(std::vector<double>{6, 25, 80}) * std::max(1.0, rad * 0.4); eg.cx = r.chance(0.6) ? 0 : r.uni(-900, 900); eg.cy = r.chance(0.6) ? 0 : r.uni(-900, 900); eg.gap5 = 0.03; eg.speed = r.pick(std::vector<double>{0.3, 1, 4}); bool straight = r.chance(0.4), even = r.chance(0.3); double th = r.chance(0.2) ? r.range(0, 7) * M_PI / 4 : r.uni(0, 2 * M_PI), t = 0, lx = 0, ly = 0; float tx = r.uni(-1, 1), ty = r.uni(-1, 1); bool tilted = r.chance(0.7);
    for (int i = 0; i < n; i++) {
        Ev e = gen_ev(r, es, eg); if (straight) { double d = std::hypot(e.x - lx, e.y - ly); lx = e.x; ly = e.y; if (i) t += d; e.x = (float)(eg.cx + t * std::cos(th)); e.y = (float)(eg.cy + t * std::sin(th)); }
        if (!tilted) e.xt = e.yt = 0; else if (r.chance(0.4)) { if (r.chance(0.3)) { tx = r.uni(-1, 1); ty = r.uni(-1, 1); if (r.chance(0.15)) tx = 0; if (r.chance(0.15)) ty = 0; } e.xt = tx; e.yt = ty; } else if (r.chance(0.1)) { e.xt = r.uni(-1.5, 1.5); e.yt = r.uni(-1.5, 1.5); } if (r.chance(0.4)) e.barrel = f32(r.chance(0.3) ? r.uni(-0.5, 1) : 0.3); if (even) e.pressure = 0.5f; if (r.chance(0.05)) e.pressure = -0.5f;
        if (r.chance(0.06)) { e.dt = r.uni(0.11, 2); e.pressure = f32(r.uni(0.1, 1)); } p.add("ev", ev_args(e)); if (r.chance(0.03)) p.add("reset"); }
}
static inline double deg(double r) { return r * 180 / M_PI; }
static inline double mod(double a, double n) { return a - n * std::floor(a / n); }
static inline double adiff(double a, double b, double n = 360) { return mod(b - a + n / 2, n) - n / 2; } // from a to b
static inline double ulpf(double v) { return std::ldexp(1.0, (int)std::floor(std::log2(std::max(1e-3, std::fabs(v)))) - 23); }
struct Pen { double x, y, p, dec, asc, dx, dy, bar; };
static Pen pen(const Ev &e) {
    Pen q; q.x = e.x; q.y = e.y; q.p = std::max(0.f, e.pressure); double xt = std::max(-1.f, std::min(1.f, e.xt)), yt = std::max(-1.f, std::min(1.f, e.yt)); q.dec = 90 - 60 * std::hypot(xt, yt); q.asc = xt == 0 && yt == 0 ? 0 : deg(std::atan2(-xt, yt)); q.dx = 60 * xt; q.dy = 60 * yt; q.bar = 360.0 * e.barrel; return q; }
static void exec(const Plan &p) {
    MyPaintBrush *b = brush_new(0); apply_brush_op(b, Op{"defaults"}); auto setv = [&](int id, double v) { apply_brush_op(b, Op{"set", {(double)id, v}}); }; setv(SET(SMUDGE), 0); setv(SET(ANTI_ALIASING), 0); setv(SET(OPAQUE_LINEARIZE), 0); setv(SET(SLOW_TRACKING), 0);
    for (int id = 0; id < MYPAINT_BRUSH_SETTINGS_COUNT; id++) for (int in = 0; in < MYPAINT_BRUSH_INPUTS_COUNT; in++) { InLib l; mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, 0); }
    int in[5]; std::map<int, int> who; for (int i = 0; i < 5; i++) { char n[4] = {'i', 'n', (char)('0' + i), 0}; in[i] = std::max(0, std::min(MYPAINT_BRUSH_INPUTS_COUNT - 1, p.ci(n))); setv(CARRY[i], 0); apply_brush_op(b, Op{"map", {(double)CARRY[i], (double)in[i], 0, 0, 1, 1}}); who[in[i]] = i; }
    double B[MYPAINT_BRUSH_SETTINGS_COUNT]; auto read = [&]() { for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) B[i] = LIB(mypaint_brush_get_base_value(b, (MyPaintBrushSetting)i)); };
    auto has_in = [&](int i) { return who.count(i) > 0; }; bool started_events = false; RecSurface *s = rec_new(0, 1); Pen prev{}; bool have = false, reset = true; u64 checked = 0, dabs = 0, straight_n = 0, arcs = 0, strokes = 0, speeds = 0, stalls = 0;
    const char *iname[MYPAINT_BRUSH_INPUTS_COUNT]; double lo[MYPAINT_BRUSH_INPUTS_COUNT], hi[MYPAINT_BRUSH_INPUTS_COUNT]; for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) { InLib l; const MyPaintBrushInputInfo *f = mypaint_brush_input_info((MyPaintBrushInput)i); iname[i] = f->cname; lo[i] = f->hard_min; hi[i] = f->hard_max; }
    // model of what lies behind: direction of motion as long as it has not changed, speeds met, custom input, stroke input
    bool line = true, moved = false; double ldx = 0, ldy = 0, vmax = 0; u64 updates = 0, since = 0; double cust = 0; bool sure = false; bool pressed = false; double stroke = 1, stol = 0; double gx = 0, gy = 0; int same = 0; double lastrand = -1; bool everup = false;
    // the same filters over the same steps: directions (360 and 180 degrees) with what rounding may have done to them, speeds, custom input
    double D[2][2] = {{0, 0}, {0, 0}}, E[2] = {0, 0}, ns[2] = {0, 0}, nst[2] = {0, 0}, cu = 0; bool cu_known = true, ns_known = true; u64 filtered = 0, ways = 0;
    for (auto &o : p.ops) {
        if (o.k == "set") { if (started_events) continue; for (int id : MAY) if (id == o.iarg(0, -1)) { double v = o.arg(1); if (id == SET(RADIUS_LOGARITHMIC)) v = std::max(-2.0, std::min(4.0, v)); if (id == SET(DABS_PER_ACTUAL_RADIUS) || id == SET(DABS_PER_BASIC_RADIUS)) v = std::max(0.0, std::min(6.0, v)); if (id == SET(DABS_PER_SECOND)) v = std::max(0.0, std::min(80.0, v)); setv(id, v); } continue; }
        if (o.k == "reset") { sim_note("brush_reset"); InLib l; mypaint_brush_reset(b); reset = true; continue; }
        if (o.k != "ev") continue;
        Ev e = ev_from(o); if (!(std::fabs(e.x) < 4000) || !(std::fabs(e.y) < 4000) || !(std::fabs(e.rot) < 3.13) || !(std::fabs(e.barrel) < 4) || !(e.zoom > 0.01 && e.zoom < 20)) continue;
        if (!started_events) { started_events = true; read(); } double R = std::exp(B[SET(RADIUS_LOGARITHMIC)]);
        double dt = e.dt <= 0 ? 0.0001 : e.dt; Pen t = pen(e); bool hidden = dt > 0.1 && t.p > 0 && B_st(b, MYPAINT_BRUSH_STATE_PRESSURE) == 0; if (have && !reset && dt <= 5 && (std::hypot(t.x - prev.x, t.y - prev.y) / std::max(0.2, R) * 12 + dt * 80 > 3000)) continue;
        size_t d0 = s->dabs->size(); R_ev(b, s, e, 0); bool was = reset || !have || (hidden ? dt - 0.0001 > 5 : dt > 5);
        if (was) { reset = false; have = true; prev = t; line = true; moved = false; vmax = 0; since = 0; cust = 0; sure = true; pressed = false; stroke = 1; stol = 0; gx = t.x; gy = t.y; memset(D, 0, sizeof D); memset(ns, 0, sizeof ns); memset(nst, 0, sizeof nst); memset(E, 0, sizeof E); cu = 0; cu_known = ns_known = true; if (hidden) { prev.p = 0; sure = false; } else { CHECK(s->dabs->size() == d0, "dab-at-reset", "%zu dabs drawn by the event that only positions the brush (%s)", s->dabs->size() - d0, ev_str(e).c_str()); continue; } }
        stalls += hidden; if (hidden) { E[0] = E[1] = 1e9; cu_known = ns_known = false; }
        auto pass = [&](double sx, double sy, double uu) { double T = std::exp(B[SET(DIRECTION_FILTER)] * 0.5) - 1, z = e.zoom; sx *= z; sy *= z; uu *= z; double l = std::hypot(sx, sy); if (std::fabs(T - 0.001) < 1e-5) E[0] = E[1] = 1e9; double fac = T <= 0.001 ? 1 : 1 - std::exp(-l / T), dfac = T <= 0.001 ? 0 : uu / T;
            for (int w = 0; w < 2; w++) { double s = 1, dot = D[w][0] * sx + D[w][1] * sy, amb = E[w] * (l + uu) + uu * (std::hypot(D[w][0], D[w][1]) + l) + 1e-6 * (l * l + D[w][0] * D[w][0] + D[w][1] * D[w][1]); if (w && dot < 0) s = -1; double more = uu * fac + dfac * (l + std::hypot(D[w][0], D[w][1])) + 1e-6 * (l + std::hypot(D[w][0], D[w][1])); if (w && std::fabs(dot) <= amb) more += 2 * std::min(l * fac, (std::hypot(D[w][0], D[w][1]) + E[w]) * (1 - fac)); /* either way round: the axis is the same up to the smaller part */ E[w] = E[w] * (1 - fac) + more; D[w][0] += (s * sx - D[w][0]) * fac; D[w][1] += (s * sy - D[w][1]) * fac; }
            double k = B[SET(CUSTOM_INPUT_SLOWNESS)]; cu += (B[SET(CUSTOM_INPUT)] - cu) * (k <= 0.001 ? 1 : 1 - std::exp(-0.1 / k)); }; size_t nd = s->dabs->size() - d0; double rot = mod(deg(e.rot) + 180, 360) - 180, segx = t.x - prev.x, segy = t.y - prev.y, len = std::hypot(segx, segy), u = 2 * (ulpf(std::max(std::fabs(t.x), std::fabs(prev.x))) + ulpf(std::max(std::fabs(t.y), std::fabs(prev.y)))), v = len / dt * e.zoom; // speed in view pixels per second
        if (len > 0) { if (len < 1000 * u) { if (line) line = false; } else if (!moved) { ldx = segx / len; ldy = segy / len; moved = true; } else if (segx / len * ldx + segy / len * ldy < 0.99999) line = false; } if (was && hidden && len > 0) line = false;
        double vold = vmax; vmax = std::max(vmax, v); double px = prev.x, py = prev.y, lx = prev.x, ly = prev.y; bool mid = false; Pen last = prev; double lp = prev.p;
        // a short step has a speed that rounding of the position can double
        double vnext = vmax; auto rough = [&](double st, double &to) { if (len <= 0) return; double T = std::min(B[SET(SPEED1_SLOWNESS)], B[SET(SPEED2_SLOWNESS)]), w = std::max(dt * std::max(0.0, st - 2 * u) / len, T > 0.001 ? T : 0); to = w > 0 ? std::max(to, v + (nd + 4) * u * e.zoom / w) : 1e30; };
        double freq = std::exp(-B[SET(STROKE_DURATION_LOGARITHMIC)]), wrap = 1 + std::max(0.0, B[SET(STROKE_HOLDTIME)]), thr = B[SET(STROKE_THRESHOLD)], gain = std::exp(B[SET(PRESSURE_GAIN_LOG)]);
        // one step of the stroke input, returns what curves see
        bool known = has_in(IN(PRESSURE)) || (prev.p == t.p && !hidden);
        auto step = [&](double pr, double dist) { double on = thr + 0.0001, off = thr * 0.9 + 0.0001, m = 2e-5; double seen;
            if (!pressed) { if (std::fabs(pr - on) < m && pr > 0) sure = false; if (pr > on) { pressed = true; stroke = 0; stol = 0; if (std::fabs(pr - on) >= m && known) { sure = true; strokes++; } } } else { if (std::fabs(pr - off) < m && pr > 0) sure = false; if (pr <= off) pressed = false; }
            seen = std::min(stroke, 1.0); stroke += dist / R * freq; stol += (dist * 1e-5 + u) / R * freq + 1e-6 * (1 + stroke); if (std::fabs(stroke - wrap) <= stol) sure = false; if (stroke >= wrap) { if (wrap > 10.9) stroke = 1, stol = 0; else { double k = stroke / wrap; stroke = std::fmod(stroke, wrap); stol += 1e-6 * k; if (stroke < stol || wrap - stroke < stol) sure = false; } } return seen; };
        auto val = [&](const Dab &d, int i) { return (double)carried(d, who[i]); }; auto has = [&](int i) { return who.count(i) > 0; };
        for (size_t k = 0; k < nd; k++) {
            const Dab &d = (*s->dabs)[d0 + k].d; dabs++; std::string ctx = "dab " + std::to_string(k) + " of " + ev_str(e);
#define BAD(i, ...) do { char m_[300]; snprintf(m_, sizeof m_, __VA_ARGS__); sim_fail("input-wrong", "input %s is %.6g %s (%s)", iname[i], val(d, i), m_, ctx.c_str()); } while (0)
            { double f = len > 0 ? ((d.x - prev.x) * segx + (d.y - prev.y) * segy) / len : 0, side = len > 0 ? std::fabs((d.x - prev.x) * segy - (d.y - prev.y) * segx) / len : std::hypot(d.x - prev.x, d.y - prev.y), tol = (nd + 2) * u + 1e-4; CHECK(side <= tol && f >= -tol && f <= len + tol, "off-path", "dab at %.7g,%.7g is not on the way from %.7g,%.7g (%s)", d.x, d.y, prev.x, prev.y, ctx.c_str()); }
            for (int i = 0; i < 5; i++) { int q = in[i]; double x = carried(d, i); CHECK(std::isfinite(x), "input-wrong", "input %s is not finite (%s)", iname[q], ctx.c_str()); if (q == IN(VIEWZOOM) || q == IN(BRUSH_RADIUS)) continue; double span = std::isfinite(hi[q] - lo[q]) && hi[q] - lo[q] < 1e6 ? (hi[q] - lo[q]) * 1e-5 : 1e-4; if (!(x >= lo[q] - span && x <= hi[q] + span)) BAD(q, "outside its limits %g to %g", lo[q], hi[q]); checked++; }
            auto between = [&](int i, double from, double a, double z, double eps) { if (!has(i)) return; double x = val(d, i); (void)from; if (x < std::min(a, z) - eps || x > std::max(a, z) + eps) BAD(i, "where the pen went from %g to %g", a, z); };
            between(IN(PRESSURE), 0, prev.p * gain, t.p * gain, 2e-5 * gain); between(IN(TILT_DECLINATION), 0, prev.dec, t.dec, 0.01); between(IN(TILT_DECLINATIONX), 0, prev.dx, t.dx, 0.01); between(IN(TILT_DECLINATIONY), 0, prev.dy, t.dy, 0.01);
            auto arc = [&](int i, double a, double z, double turn) { if (!has(i)) return; double x = val(d, i) - turn, whole = adiff(a, z); if (std::fabs(whole) > 179.9) return; if (std::fabs(adiff(a, x)) + std::fabs(adiff(x, z)) > std::fabs(whole) + 0.1) BAD(i, "where the pen turned from %g to %g degrees", a + turn, z + turn); arcs++; };
            arc(IN(TILT_ASCENSION), prev.asc, t.asc, rot); arc(IN(BARREL_ROTATION), prev.bar, t.bar, 0);
            // and they are as far on their way as the pen is
            if (!hidden && len > 1000 * u * (nd + 2)) { double f = ((d.x - prev.x) * segx + (d.y - prev.y) * segy) / (len * len), ft = (nd + 2) * u / len + 2e-4; auto way = [&](int i, double a, double turn, double whole, double eps, bool ang) { if (!has(i)) return; double x = val(d, i), w = a + turn + f * whole, off = ang ? adiff(x, w) : x - w; if (std::fabs(off) > eps + std::fabs(whole) * ft) BAD(i, "%.3g of the way from %g to %g", f, a + turn, a + turn + whole); ways++; };
                way(IN(PRESSURE), prev.p * gain, 0, (t.p - prev.p) * gain, 2e-5 * (gain + 1), false); way(IN(TILT_DECLINATION), prev.dec, 0, t.dec - prev.dec, 0.02, false); way(IN(TILT_DECLINATIONX), prev.dx, 0, t.dx - prev.dx, 0.02, false); way(IN(TILT_DECLINATIONY), prev.dy, 0, t.dy - prev.dy, 0.02, false);
                double wa = adiff(prev.asc, t.asc), wb = adiff(prev.bar, t.bar); if (std::fabs(wa) < 179.9) way(IN(TILT_ASCENSION), prev.asc, rot, wa, 0.1, true); if (std::fabs(wb) < 179.9) way(IN(BARREL_ROTATION), prev.bar, 0, wb, 0.1, true); }
            if (has(IN(VIEWZOOM)) && std::fabs(val(d, IN(VIEWZOOM)) - std::log(e.zoom)) > 1e-4) BAD(IN(VIEWZOOM), "at a zoom of %g", e.zoom);
            if (has(IN(BRUSH_RADIUS)) && std::fabs(val(d, IN(BRUSH_RADIUS)) - B[SET(RADIUS_LOGARITHMIC)]) > 1e-5) BAD(IN(BRUSH_RADIUS), "where the logarithm of the radius is %g", B[SET(RADIUS_LOGARITHMIC)]);
            // direction of motion, taken from the step before
            double filter = B[SET(DIRECTION_FILTER)]; bool dir_known = len > 2000 * u && !hidden && ((k > 0 && filter <= 0.0019) || (line && filter > 0.003 && (k > 0 || (moved && since > 0 && std::fabs(ldx * segx / len + ldy * segy / len) > 0.9999)))); double prior = std::hypot(d.x - px, d.y - py); (void)prior;
            if (dir_known && k > 0 && filter <= 0.0019) { double back = std::hypot(px - lx, py - ly); if (back < 300 * u) dir_known = false; } if (dir_known && filter > 0.003 && (k > 0 ? false : !everup)) dir_known = false; if (dir_known && filter > 0.003) { double way = std::hypot(px - prev.x, py - prev.y); if (way < 2000 * u && !everup) dir_known = false; }
            if (dir_known) { double w = deg(std::atan2(segy, segx)) + rot, tol = 0.6; straight_n++; if (has(IN(DIRECTION_ANGLE)) && std::fabs(adiff(val(d, IN(DIRECTION_ANGLE)), w)) > tol) BAD(IN(DIRECTION_ANGLE), "while moving at %g degrees in the view", w); if (has(IN(DIRECTION)) && std::fabs(adiff(val(d, IN(DIRECTION)), w, 180)) > tol) BAD(IN(DIRECTION), "while moving at %g degrees in the view", w); if (has(IN(ATTACK_ANGLE)) && has(IN(TILT_ASCENSION)) && std::fabs(adiff(val(d, IN(ATTACK_ANGLE)), w + 90 - val(d, IN(TILT_ASCENSION)))) > 2 * tol) BAD(IN(ATTACK_ANGLE), "while moving at %g degrees with the pen at %g", w, val(d, IN(TILT_ASCENSION))); }
            if (has(IN(ATTACK_ANGLE)) && has(IN(TILT_ASCENSION)) && has(IN(DIRECTION_ANGLE)) && std::fabs(adiff(val(d, IN(ATTACK_ANGLE)), val(d, IN(DIRECTION_ANGLE)) + 90 - val(d, IN(TILT_ASCENSION)))) > 0.1) BAD(IN(ATTACK_ANGLE), "with direction angle %g and the pen at %g", val(d, IN(DIRECTION_ANGLE)), val(d, IN(TILT_ASCENSION)));
            if (has(IN(DIRECTION)) && has(IN(DIRECTION_ANGLE)) && dir_known && std::fabs(adiff(val(d, IN(DIRECTION)), val(d, IN(DIRECTION_ANGLE)), 180)) > 0.1) BAD(IN(DIRECTION), "with direction angle %g", val(d, IN(DIRECTION_ANGLE)));
            rough(std::hypot(d.x - px, d.y - py), vnext);
            for (int w = 0; w < 2; w++) { int q = w ? IN(DIRECTION) : IN(DIRECTION_ANGLE); if (!has(q)) continue; double l = std::hypot(D[w][0], D[w][1]); if (!(E[w] * 3 < l * 0.05)) continue; double want = deg(std::atan2(D[w][1], D[w][0])) + rot, tol = 0.1 + deg(3 * E[w] / l); filtered++; if (std::fabs(adiff(val(d, q), want, w ? 180 : 360)) > tol) BAD(q, "where the motion so far, smoothed, goes at %g degrees in the view (tolerance %g)", want, tol); }
            if (has(IN(CUSTOM)) && cu_known && std::fabs(B[SET(CUSTOM_INPUT_SLOWNESS)] - 0.001) > 1e-5 && std::fabs(val(d, IN(CUSTOM)) - cu) > 2e-3 + 1e-3 * std::fabs(cu)) BAD(IN(CUSTOM), "where %g is on its way to %g with slowness %g", cu, B[SET(CUSTOM_INPUT)], B[SET(CUSTOM_INPUT_SLOWNESS)]);
            for (int w = 0; w < 2; w++) { int q = w ? IN(SPEED2) : IN(SPEED1); double T = B[w ? SET(SPEED2_SLOWNESS) : SET(SPEED1_SLOWNESS)]; if (!has(q) || !ns_known || dt < 1e-5 * (nd + 1) || T < 0.003) continue; double g = std::exp(B[w ? SET(SPEED2_GAMMA) : SET(SPEED1_GAMMA)]), m = 0.015 * (45 + g), c0 = 0.5 - m * std::log(45 + g); double f1 = 0, f2 = 0; if (k > 0) { if (len > 0) { double f = std::hypot(px - prev.x, py - prev.y) / len; double sl = (nd + 2) * u / len + 1e-4; f1 = std::max(0.0, f - sl); f2 = std::min(1.0, f + sl); } else f2 = 1; }
                double a = v + (ns[w] - v) * std::exp(-f1 * dt / T), b = v + (ns[w] - v) * std::exp(-f2 * dt / T), tol = nst[w] + (nd + 2) * 1.2e-7 * (v + ns[w]) + 0.01 * std::fabs(v - ns[w]) + 0.002 * (v + ns[w]) + (len > 0 ? (nd + 2) * u * e.zoom / std::min(dt, T) : 0), eps = 2e-3 + m * (std::log(45 + g) + 1) * 3e-6, lo = std::log(g + std::max(0.0, std::min(a, b) - tol)) * m + c0 - eps, hi = std::log(g + std::max(a, b) + tol) * m + c0 + eps; filtered++; if (val(d, q) < lo || val(d, q) > hi) BAD(q, "where the speed so far, smoothed over %g s, gives %g to %g (speed now %g)", T, lo, hi, v); }
            for (int w = 0; w < 2; w++) { int q = w ? IN(SPEED2) : IN(SPEED1); if (!has(q)) continue; double g = std::exp(B[w ? SET(SPEED2_GAMMA) : SET(SPEED1_GAMMA)]), slow = B[w ? SET(SPEED2_SLOWNESS) : SET(SPEED1_SLOWNESS)]; auto f = [&](double x) { double m = 0.015 * (45 + g); return std::log(g + x) * m + 0.5 - m * std::log(45 + g); }; double x = val(d, q), m = 0.015 * (45 + g), eps = 2e-3 + m * (std::log(45 + g) + 1) * 3e-6, top = f(vmax * 1.03 + 1e-6);
                if (hidden || dt < 1e-5 * (nd + 1)) { vmax = 1e30; continue; } if (vmax > 1e29) continue;
                if (x < f(0) - eps || x > top + eps) BAD(q, "where standing still gives %g and the fastest move so far %g", f(0), top);
                if (slow <= 0.0005 && k > 0) { double back = std::hypot(px - lx, py - ly); if (len == 0 ? v == 0 : back > 200 * u) { double r = 0.02 + (nd + 4) * u / std::max(1e-9, back); if (r > 0.5) continue; if (x < f(v * (1 - r)) - eps || x > f(v * (1 + r)) + eps) BAD(q, "at a speed of %g, which gives %g", v, f(v)); speeds++; } } (void)vold; }
            if (has(IN(RANDOM))) { double x = val(d, IN(RANDOM)); same = x == lastrand ? same + 1 : 0; lastrand = x; if (same >= 3) BAD(IN(RANDOM), "for %d dabs in a row", same + 1); }
            if (has(IN(CUSTOM))) { double x = val(d, IN(CUSTOM)), c = B[SET(CUSTOM_INPUT)]; if (x < std::min(cust, c) - 1e-4 || x > std::max(cust, c) + 1e-4) BAD(IN(CUSTOM), "on its way from %g to %g", cust, c); if (B[SET(CUSTOM_INPUT_SLOWNESS)] <= 0.0005 && since > 0 && std::fabs(x - c) > 1e-4) BAD(IN(CUSTOM), "instead of %g without slowness", c); cust = x; }
            for (int w = 0; w < 2; w++) { int q = w ? IN(GRIDMAP_Y) : IN(GRIDMAP_X); if (!has(q) || !updates || hidden) continue; double c = w ? gy : gx, size = 256 * std::exp(B[SET(GRIDMAP_SCALE)]), sc = B[w ? SET(GRIDMAP_SCALE_Y) : SET(GRIDMAP_SCALE_X)], g = mod(std::fabs(c * sc), size) / size * 256, tol = 0.02 + (std::fabs(c * sc) * 5e-7 + u * sc) / size * 256; if (c < 0) g = 256 - g; if (tol < 30 && std::fabs(adiff(val(d, q), g, 256)) > tol) BAD(q, "at %s = %g, which is %g on the grid", w ? "y" : "x", c, g); }
            double pr = has(IN(PRESSURE)) ? val(d, IN(PRESSURE)) / gain : -1; if (hidden && !mid && pr > 0) { mid = true; step(0, std::hypot(t.x - px, t.y - py)); px = t.x; py = t.y; }
            if (pr < 0) { if (prev.p == t.p && !hidden) pr = t.p; else sure = false, pr = 0; }
            double seen = step(pr, std::hypot(d.x - px, d.y - py)); if (has(IN(STROKE)) && sure && std::fabs(val(d, IN(STROKE)) - seen) > stol + 2e-3) BAD(IN(STROKE), "where the distance since pressing down gives %g", seen);
            if (since == 0 && has(IN(STROKE)) && !pressed && !hidden && val(d, IN(STROKE)) != 1 && sure) BAD(IN(STROKE), "before the pen was pressed down");
            pass(d.x - px, d.y - py, u); lx = px; ly = py; px = d.x; py = d.y; gx = d.x; gy = d.y; updates++; since++; lp = pr; vmax = std::max(vmax, vnext);
        }
        rough(std::hypot(t.x - px, t.y - py), vnext); vmax = std::max(vmax, vnext); pass(t.x - px, t.y - py, u); if (hidden) E[0] = E[1] = 1e9; for (int w = 0; w < 2; w++) { double T = std::max(1e-9, B[w ? SET(SPEED2_SLOWNESS) : SET(SPEED1_SLOWNESS)]), k = std::exp(-dt / T); nst[w] = nst[w] * k + (nd + 2) * 1.2e-7 * (v + ns[w]) + std::fabs(v - ns[w]) * std::min(1.0, 0.001 / T) * (len > 0 && std::hypot(t.x - px, t.y - py) < 1e-3 * len + 4 * u) + (len > 0 ? (nd + 2) * u * e.zoom / T : 0) * (1 - k); ns[w] = v + (ns[w] - v) * k; }
        (void)last; (void)lp; if (hidden && !mid) { step(0, std::hypot(t.x - px, t.y - py)); px = t.x; py = t.y; } if (!has(IN(PRESSURE)) && (hidden || prev.p != t.p)) sure = false; step(t.p, std::hypot(t.x - px, t.y - py)); if (!known) sure = false; updates++; since++; gx = t.x; gy = t.y; if (len > 2000 * u) everup = true; if (!moved) everup = false; prev = t;
        if (nd) { const Dab &d = (*s->dabs)[d0].d; sim_state(mix64((u64)in[0] | (u64)in[1] << 8 | (u64)(long long)(carried(d, 0) * 16) << 16 | (u64)(long long)(carried(d, 1) * 4) << 40)); } s->dabs->clear();
    }
    if (dabs > 4) sim_nontrivial(); sim_hash(checked); sim_hash(dabs); sim_count("probe_input_values", checked); sim_count("probe_known_directions", straight_n); sim_count("probe_turning_pen", arcs); sim_count("probe_interpolated_inputs", ways); sim_count("probe_strokes_begun", strokes); sim_count("probe_known_speeds", speeds); sim_count("probe_filtered_inputs", filtered); sim_count("probe_pressed_after_stall", stalls); B_unref(b); rec_free(s);
}
static RegProp reg({"C25", "ra", gen, exec});
