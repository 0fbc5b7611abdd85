// C21: dab placement does not depend on how motion is cut into events.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    p.cfg["rlog"] = f32(r.uni(-0.5, 3)); p.cfg["dbr"] = r.chance(0.5) ? 0 : f32(r.uni(0.1, 5)); p.cfg["dar"] = r.chance(0.4) ? 0 : f32(r.uni(0.1, 5)); p.cfg["dps"] = r.chance(0.5) ? 0 : f32(r.uni(0.5, 80)); p.cfg["ratio"] = r.chance(0.6) ? 1 : f32(r.uni(1, 8)); p.cfg["angle"] = f32(r.uni(0, 180)); p.cfg["press"] = f32(r.uni(0.1, 1)); p.cfg["offx"] = r.chance(0.7) ? 0 : f32(r.uni(-2, 2)); p.cfg["hard"] = f32(r.uni(0.1, 1)); p.cfg["flip"] = r.chance(0.2);
    double x = f32(r.uni(-100, 100)), y = f32(r.uni(-100, 100)); p.add("start", {x, y}); int n = r.range(1, tier ? 6 : 3);
    for (int i = 0; i < n; i++) {
        double len = r.chance(0.1) ? 0 : r.uni(0.5, 250), th = r.uni(0, 6.2832), T = r.uni(0.002, 4.5); std::vector<double> a{f32(len * std::cos(th)), f32(len * std::sin(th)), T}; int k = r.chance(0.3) ? r.range(30, tier ? 400 : 150) : r.range(1, 12); int kind = r.range(0, 2); // even, random, bursts of coalesced events after stalls
        std::vector<double> cut; for (int j = 0; j < k; j++) cut.push_back(kind == 0 ? (j + 1.0) / (k + 1) : kind == 1 ? r.u() : std::min(0.999, std::floor(r.u() * 4) / 4 + r.u() * 0.01)); std::sort(cut.begin(), cut.end()); a.insert(a.end(), cut.begin(), cut.end()); p.add("seg", a);
    }
}
static void exec(const Plan &p) {
    MyPaintBrush *br[2]; RecSurface *rs[2]; float pr = (float)std::max(0.05, std::min(1.0, p.c("press", 0.5)));
    for (int k = 0; k < 2; k++) {
        MyPaintBrush *b = br[k] = brush_new(0); rs[k] = rec_new(1, 1); apply_brush_op(b, Op{"defaults"}); InLib l; mypaint_brush_set_mapping_n(b, SET(OPAQUE_MULTIPLY), MYPAINT_BRUSH_INPUT_PRESSURE, 0); mypaint_brush_set_base_value(b, SET(OPAQUE_MULTIPLY), 1);
        auto set = [&](MyPaintBrushSetting s, double v) { mypaint_brush_set_base_value(b, s, (float)v); }; set(SET(RADIUS_LOGARITHMIC), std::max(-1.0, std::min(4.0, p.c("rlog", 1)))); set(SET(DABS_PER_BASIC_RADIUS), p.c("dbr")); set(SET(DABS_PER_ACTUAL_RADIUS), p.c("dar")); set(SET(DABS_PER_SECOND), p.c("dps")); set(SET(ELLIPTICAL_DAB_RATIO), std::max(1.0, p.c("ratio", 1))); set(SET(ELLIPTICAL_DAB_ANGLE), p.c("angle")); set(SET(OFFSET_X), p.c("offx")); set(SET(HARDNESS), p.c("hard", 1)); if (p.ci("flip")) set(SET(OFFSET_ANGLE_2_VIEW), 0.5);
    }
    double x = 0, y = 0, ratio = std::max(1.0, p.c("ratio", 1)); bool started = false; u64 evn[2] = {0, 0}; double radius = std::max(0.2, std::exp((double)(float)p.c("rlog", 1))); double per_px = (p.c("dbr") + p.c("dar")) / radius, todo = 0; size_t tot = 0; double maxseg = 1, slip = 1e-3, stepmax = 0; u64 pieces = 0;
    auto go = [&](int k, double X, double Y, double dt) { Ev e{(float)X, (float)Y, pr, 0, 0, dt, 1, 0, 0, 0}; R_ev(br[k], rs[k], e, evn[k]++); };
    auto start = [&]() { for (int k = 0; k < 2; k++) { go(k, x, y, 0.01); go(k, x, y, 0.001); } started = true; };
    for (auto &o : p.ops) {
        if (o.k == "start" && !started) { x = (float)o.arg(0); y = (float)o.arg(1); start(); }
        else if (o.k == "seg") {
            if (!started) start(); double dx = o.arg(0), dy = o.arg(1), T = std::max(0.001, std::min(4.8, o.arg(2, 0.1))), len = std::hypot(dx, dy); if (!(len < 2000)) continue; double ang = p.c("angle") * M_PI / 180, cs = std::cos(ang), sn = std::sin(ang), eff = std::hypot((dy * cs - dx * sn) * ratio, dy * sn + dx * cs); double est = eff * per_px + T * p.c("dps"); if (todo + est > 3000) continue; maxseg = std::max(maxseg, std::fabs(x) + std::fabs(y) + len); { double st = est > 1e-9 ? len / est : 1, add = est * (1.2e-7 * maxseg / std::max(1e-6, st) * (len > 0) + 2e-6) + 1e-4 * (o.a.size() + 1) * (len > 0 ? 1.2e-7 * maxseg / std::max(1e-6, st) * 1e4 : 1e-3); if (slip + add > 0.15) continue; slip += add; } todo += est;
            double last = 0; for (size_t i = 3; i < o.a.size(); i++) { double c = std::max(0.0, std::min(1.0, o.a[i])); if (c <= last + 1e-6 || c > 1 - 1e-6) continue; go(1, x + dx * c, y + dy * c, (c - last) * T); last = c; pieces++; } go(1, x + dx, y + dy, (1 - last) * T); x += dx; y += dy; go(0, x, y, T); pieces++;
            sim_state(mix64((u64)(est) * 64 + std::min<u64>(63, o.a.size())));
            auto &A = *rs[0]->dabs, &B = *rs[1]->dabs; long na = A.size(), nbb = B.size(); tot = na; double eps = slip; stepmax = std::max(stepmax, est > 1e-9 ? std::min(len, len / est) : 0);
            // the count may differ only when the path ends within rounding of a dab
            if (na != nbb) { double f = std::fabs(B_st(br[0], MYPAINT_BRUSH_STATE_PARTIAL_DABS) - (nbb > na ? 1 : 0)), g = std::fabs(B_st(br[1], MYPAINT_BRUSH_STATE_PARTIAL_DABS) - (na > nbb ? 1 : 0)); double tol = 0.01 + 2 * eps; CHECK(std::labs(na - nbb) == 1 && f < tol && g < tol, "dab-count", "%ld dabs when the motion comes in one event, %ld when it is cut into %llu events (segment of %.4g px in %.4g s)", na, nbb, (unsigned long long)pieces, len, T); sim_count("probe_count_boundary"); }
            double tp = 2e-3 + 1e-6 * maxseg + 2 * eps * stepmax;
            for (long i = 0; i < std::min(na, nbb); i++) { const Dab &a = A[i].d, &b = B[i].d; CHECK(std::fabs(a.x - b.x) < tp && std::fabs(a.y - b.y) < tp, "dab-position", "dab %ld at (%.6g,%.6g) when the motion comes in one event, at (%.6g,%.6g) when it is cut into %llu events (tolerance %.3g)", i, a.x, a.y, b.x, b.y, (unsigned long long)pieces, tp);
                Dab c = b; c.x = a.x; c.y = a.y; const float *u = (const float *)&a, *v = (const float *)&c; for (int k = 0; k < 17; k++) CHECK(std::fabs(u[k] - v[k]) <= 1e-4 * (1 + std::fabs(u[k])), "dab-param", "dab %ld differs in parameter %d: %g versus %g", i, k, u[k], v[k]); }
            // with no more than the path to go on: the engine places one dab per unit of progress
            CHECK(std::fabs((double)na - todo) <= 1.0 + 0.01 + 2 * eps + 0.0021 * p.c("dps"), "dab-density", "%ld dabs on a path that is worth %.5g", na, todo);
        }
    }
    if (tot > 2 && pieces > 1) sim_nontrivial(); sim_count("probe_dabs", tot); sim_count("fault_events_coalesced_or_split", pieces); for (int k = 0; k < 2; k++) { B_unref(br[k]); rec_free(rs[k]); }
}
static RegProp reg({"C21", "ra", gen, exec});
