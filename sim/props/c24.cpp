// C24: paint goes where the dab says. Each pixel's colour moves from what was there towards the dab's colour and no further.
#include "canvas.h"
#include "../rt.h"
enum { MIX, SAME, COVER, COLORIZE, POSTERIZE };
static void gen(Rng &r, Plan &p, int tier) {
    int kind = r.pick(std::vector<int>{MIX, MIX, MIX, SAME, SAME, COVER, COVER, COLORIZE, POSTERIZE}); p.cfg["kind"] = kind; gen_store(r, p); if (p.cfg["init"] == 1) p.cfg["init"] = 3; if (kind == SAME) p.cfg["init"] = 4;
    p.cfg["threadsafe"] = r.chance(0.3); if (p.cfg["threadsafe"]) gen_sched(r, p, 5, 0.2); p.cfg["p_fail"] = kind != COVER && r.chance(0.2) ? f32(r.uni(0.02, 0.3)) : 0; p.cfg["fseed"] = r.range(1, 1 << 30);
    CanvasGen g; g.symm = kind != COVER && r.chance(0.4); g.symm_mid = r.chance(0.3); g.maxlines = 8; g.pick_any = true; g.p_pick = 0.1; g.p_end = r.pick(std::vector<double>{0.1, 0.4, 0.7}); g.dab.area = r.pick(std::vector<double>{5, 20, 50}); g.dab.rmax = r.pick(std::vector<double>{4, 14, 30}); g.nmax = tier ? 50 : 25; g.dab.paint = kind != MIX || r.chance(0.4); g.cycles = r.chance(0.03); gen_canvas(r, p, g);
    u16 u[4]; u[3] = r.chance(0.4) ? 1 << 15 : r.chance(0.2) ? r.range(0, 300) : r.range(0, 1 << 15); bool grey = r.chance(0.2); for (int i = 0; i < 3; i++) u[i] = grey && i ? u[0] : r.chance(0.15) ? 0 : r.chance(0.15) ? u[3] : r.range(0, u[3]); for (int i = 0; i < 4; i++) p.cfg[std::string("u") + (char)('0' + i)] = u[i];
    double pn = r.uni(0.01, 1.28);
    for (auto &o : p.ops) if (o.k == "dab") {
        Dab d = dab_from(o); if (kind != MIX || !r.chance(0.3)) { d.hardness = std::max(0.f, std::min(1.f, d.hardness)); d.opaque = std::max(0.f, std::min(1.f, d.opaque)); }
        switch (kind) {
        case MIX: d.colorize = d.posterize = 0; if (d.paint > 0) d.paint = 1; break;
        case SAME: d.colorize = d.posterize = 0; break;
        case COVER: d.paint = d.paint > 0 ? 1 : 0; if (r.chance(0.5)) { d.opaque = d.hardness = 1; d.softness = 0; d.a = 1; d.lock = d.colorize = d.posterize = 0; d.ratio = 1; d.radius = std::max(3.f, d.radius); } break;
        case COLORIZE: d.colorize = 1; d.lock = d.posterize = 0; break;
        case POSTERIZE: d.posterize = 1; d.posterize_num = (float)pn; d.lock = d.colorize = 0; break;
        }
        o.a = dab_args(d);
    }
}
static inline float cl(float v) { return std::max(0.f, std::min(1.f, v)); }
static inline double lum(const u16 *p) { return 0.2126 * p[0] + 0.7152 * p[1] + 0.0722 * p[2]; }
static void exec(const Plan &p) {
    int kind = p.ci("kind"); StoreCfg c = store_cfg(p); if (c.init == 1) c.init = 3; c.p_fail = p.c("p_fail"); c.fail_seed = (u64)p.c("fseed"); if (kind == SAME) c.init = 4; for (int i = 3; i >= 0; i--) { char n[3] = {'u', (char)('0' + i), 0}; c.uni[i] = std::max(0, std::min(i == 3 ? 1 << 15 : (int)c.uni[3], p.ci(n))); }
    rt_set_threads(std::max(1, p.ci("threads", 1))); SimSurface *s = surf_new(c); Store &st = *s->st; int ts = st.ts; std::vector<Dab> pend; bool open = false, symm = false; u64 changed = 0, checked = 0; Snap before; double all_tol = 2; // what rounding may add up to over the run
    auto end = [&]() {
        if (!open) return; L_end(IF(s)); st.idle("end_atomic"); open = false; std::vector<Dab> act; for (auto &d : pend) if (!nodraw(d)) act.push_back(d);
        bool raise_only = true; double lo[3] = {2, 2, 2}, hi[3] = {-1, -1, -1}; int ns = 0, k = act.size(), apps = 2 * k * (symm ? 16 : 1); // a dab is applied once per blend mode and replica
        for (auto &d : act) { float v[3] = {cl(d.r), cl(d.g), cl(d.b)}; for (int i = 0; i < 3; i++) { lo[i] = std::min(lo[i], (double)v[i]); hi[i] = std::max(hi[i], (double)v[i]); } if (cl(d.a) < 1) raise_only = false; if (d.paint > 0) ns++; }
        all_tol += 1.5 * apps + ns * (symm ? 32 : 2) * 14.0;
        for (auto &t : st.tiles) {
            auto b = before.find(t.first); std::vector<u16> init; const std::vector<u16> *o = b == before.end() ? nullptr : &b->second;
            if (!o) { init.resize(ts * ts * 4); for (int i = 0; i < ts * ts; i++) st.pixel(t.first.first * ts + i % ts, t.first.second * ts + i / ts, &init[i * 4]); o = &init; }
            if (*o == t.second.px && kind != COVER) continue;
            for (int i = 0; i < ts * ts; i++) {
                const u16 *n = &t.second.px[i * 4], *q = &(*o)[i * 4]; int x = t.first.first * ts + i % ts, y = t.first.second * ts + i / ts; bool ch = memcmp(n, q, 8) != 0; changed += ch;
                auto was = [&](const char *w) { static char m[200]; snprintf(m, sizeof m, "pixel (%d,%d) became %d,%d,%d,%d (was %d,%d,%d,%d) %s", x, y, n[0], n[1], n[2], n[3], q[0], q[1], q[2], q[3], w); return m; };
                if (kind == COVER) { // the topmost dab that may reach the pixel, if it covers it for sure
                    const Dab *top = nullptr; for (int j = k - 1; j >= 0; j--) { const Dab &d = act[j]; double e = std::hypot(x + 0.5 - d.x, y + 0.5 - d.y); if (e > d.radius + 2) continue; if (d.opaque >= 1 && d.hardness >= 1 && d.a >= 1 && d.softness <= 0 && d.lock <= 0 && d.colorize <= 0 && d.posterize <= 0 && d.ratio <= 1 && (d.paint <= 0 || d.paint >= 1) && e < d.radius - 1.5) top = &d; break; }
                    if (!top) continue; checked++; float v[3] = {cl(top->r), cl(top->g), cl(top->b)}; double tol = top->paint > 0 ? 16 : 1.01; for (int m = 0; m < 3; m++) CHECK(n[3] == 1 << 15 && std::fabs(n[m] - v[m] * 32768.0) <= tol, "not-covered", "%s under an opaque dab of colour %.5g,%.5g,%.5g", was(""), v[0], v[1], v[2]);
                    continue; }
                if (!ch) continue; checked++;
                if (raise_only) CHECK(n[3] + apps >= q[3], "alpha-lowered", "%s", was("by dabs that do not erase"));
                if (kind == MIX) { if (ns && (k > 1 || symm)) continue; double slack = ns ? 0.12 : 0, tol = 2 + 1.5 * apps; // mixing pigments can leave the box of the two colours a little
                    for (int m = 0; m < 3; m++) { double o1 = q[3] ? (double)q[m] / q[3] : lo[m], l = std::min(lo[m], o1) - slack, h = std::max(hi[m], o1) + slack; CHECK(n[m] >= l * n[3] - tol && n[m] <= h * n[3] + tol, "colour-beyond", "%s, outside the range from the old colour to those of %d dabs (%.5g to %.5g) in channel %d", was(""), k, lo[m], hi[m], m); } }
                else if (kind == SAME) { for (int m = 0; m < 3; m++) { double v = c.uni[3] ? (double)c.uni[m] / c.uni[3] : lo[m]; CHECK(std::fabs(n[m] - v * n[3]) <= all_tol, "colour-drifted", "%s by %d dabs of the same colour (%.5g in channel %d)", was(""), k, v, m); } }
                else if (kind == COLORIZE) CHECK(std::fabs(lum(q) - lum(n)) <= 2 + 2 * apps, "brightness-changed", "%s by %d colorizing dabs", was(""), k);
                else if (kind == POSTERIZE && k) { int num = std::max(1, std::min(128, (int)std::floor(act[0].posterize_num * 100.0 + 0.5))); for (int m = 0; m < 3; m++) CHECK(std::abs(n[m] - q[m]) <= 32768.0 / (2 * num) + 2 + apps, "posterized-beyond", "%s by posterizing to %d levels", was(""), num); }
                if ((checked & 63) == 0) sim_state(mix64((u64)kind | (u64)(n[3] >> 12) << 4 | (u64)(n[0] >> 12) << 8 | (u64)(n[1] >> 12) << 16 | (u64)(q[3] >> 12) << 24 | (u64)(q[0] >> 12) << 32));
            }
        }
        before = st.snap(); if (!st.failed) pend.clear(); };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(); L_begin(IF(s)); open = true; } else if (o.k == "end") end();
        else if (o.k == "dab") { Dab d = dab_from(o); if (!(d.radius < 130) || !(std::fabs(d.x) < 2500) || !(std::fabs(d.y) < 2500)) continue; if (kind <= SAME) d.colorize = d.posterize = 0; else if (kind == COLORIZE) d.colorize = 1, d.lock = d.posterize = 0; else if (kind == POSTERIZE) { d.posterize = 1; d.lock = d.colorize = 0; if (!pend.empty()) d.posterize_num = pend[0].posterize_num; }
            if (kind == SAME) { d.r = c.uni[3] ? (float)c.uni[0] / c.uni[3] : 0.3f; d.g = c.uni[3] ? (float)c.uni[1] / c.uni[3] : 0.8f; d.b = c.uni[3] ? (float)c.uni[2] / c.uni[3] : 0.1f; }
            if (!open) { L_begin(IF(s)); open = true; } L_draw(IF(s), d); pend.push_back(d); }
        else if (o.k == "pick") { if (!(o.arg(2) < 130) || !(std::fabs(o.arg(0)) < 2500) || !(std::fabs(o.arg(1)) < 2500)) continue; rt_set_rand(0, (u64)o.arg(4, 1)); L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); }
        else if (o.k == "symm" && kind != COVER) { L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), std::max(0, std::min(8, o.iarg(5)))); symm = true; }
    }
    end(); if (checked) sim_nontrivial(); static const char *kn[] = {"probe_mixed_pixels", "probe_same_colour_pixels", "probe_covered_pixels", "probe_colorized_pixels", "probe_posterized_pixels"}; sim_count(kn[std::max(0, std::min(4, kind))], checked); sim_hash(store_hash(st)); surf_unref(s);
}
static RegProp reg({"C24", "ra", gen, exec});
