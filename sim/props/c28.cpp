// C28: a dab marks exactly its ellipse. Every transaction is compared with a small model of dabs and blend modes in double
// precision, and with the same work done some whole pixels away on another surface with shifted content.
#include "canvas.h"
#include "../rt.h"
extern "C" { void rgb_to_spectral(float, float, float, float *); void spectral_to_rgb(float *, float *); }
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); if (p.cfg["init"] == 1) p.cfg["init"] = 5; p.cfg["threadsafe"] = r.chance(0.35); if (p.cfg["threadsafe"]) gen_sched(r, p, 4, 0.2);
    p.cfg["dx"] = r.chance(0.3) ? r.range(-3, 3) * 64 : r.range(-150, 150); p.cfg["dy"] = r.chance(0.3) ? r.range(-3, 3) * 64 : r.range(-150, 150); p.cfg["mode2"] = r.range(0, 1);
    double area = r.pick(std::vector<double>{3, 15, 50, 90}); int n = r.range(2, tier ? 24 : 12); DabGen dg; dg.area = area; dg.cx = r.range(-100, 100); dg.cy = r.range(-100, 100); dg.quant = 1 / 64.; dg.rmin = r.pick(std::vector<double>{0.3, 3, 3, 3}); dg.rmax = r.pick(std::vector<double>{6, 16, 30}); if (r.chance(0.1)) dg.weird = true; double pe = r.pick(std::vector<double>{0.15, 0.5, 0.9}); dg.blends = r.chance(0.7); dg.paint = r.chance(0.5);
    p.add("begin");
    for (int i = 0; i < n; i++) {
        if (i && r.chance(pe)) { p.add("end"); p.add("begin"); }
        Dab d = gen_dab(r, dg); if (r.chance(0.25)) { d.x = std::floor(d.x * 2) / 2; d.y = std::floor(d.y * 2) / 2; } if (r.chance(0.1)) { d.x = 16 * std::floor(d.x / 16); if (r.chance(0.5)) d.y = 16 * std::floor(d.y / 16); } if (r.chance(0.2)) d.radius = (float)r.range(1, 8); if (r.chance(0.3)) d.angle = (float)(r.range(-2, 4) * 90); if (r.chance(0.06)) { d.ratio = (float)r.uni(6, 20); d.radius = (float)(20 + r.range(0, 20)); }
        p.add("dab", dab_args(d)); if (r.chance(0.1)) p.add("pick", {d.x, d.y, f32(r.uni(1, 20))});
    }
    p.add("end");
}
static inline double cl(double v) { return std::max(0., std::min(1., v)); }
static const double ONE = 32768;
struct Px { double v[4]; double tol = 0; bool known[4] = {true, true, true, true}; int layers = 0; };
// opacity of the dab at the pixel, in 0..1; -1 if the model does not say
static double opacity(const Dab &d, double x, double y, double &tol) {
    double xx = x + 0.5 - d.x, yy = y + 0.5 - d.y, dist = std::hypot(xx, yy); double ratio = std::max(1.f, d.ratio), h = cl(d.hardness), s = cl(d.softness), a = (double)d.angle / 180 * 3.14159265358979323846; tol = 0;
    if (d.radius < 3) return dist > d.radius + 1.5 ? 0 : -1;
    double yr = (yy * cos(a) - xx * sin(a)) * ratio, xr = yy * sin(a) + xx * cos(a), rr = (xr * xr + yr * yr) / ((double)d.radius * d.radius); if (dist > d.radius + 1) return 0;
    double e = 4e-6 * ratio * (1 + rr + std::sqrt(rr)) * (1 + std::fabs(d.angle) / 2000); if (rr > 1 + e) return 0; double o = rr <= h ? 1 - rr * (1 / h - 1) : h / (1 - h) * (1 - rr); if (h >= 1) { if (rr > 1 - e) return -1; o = 1; } 
    tol = e * std::max(1 / h - 1, h < 1 ? h / (1 - h) : 0.) * (1 - s); if (tol > 0.02) return -1; return cl(o) * (1 - s);
}
static void blend(Px &q, const Dab &d, double m, double mtol) { // one dab on one pixel
    double op = cl(d.opaque), lock = cl(d.lock), col = cl(d.colorize), post = cl(d.posterize), paint = cl(d.paint), a = cl(d.a), normal = (1 - lock) * (1 - col) * (1 - post); double c[3] = {std::floor(cl(d.r) * ONE), std::floor(cl(d.g) * ONE), std::floor(cl(d.b) * ONE)};
    if (m <= 0 && mtol <= 0) return; q.layers++;
    auto over = [&](double o, double ca) { o *= m; for (int i = 0; i < 3; i++) q.v[i] = o * ca * c[i] + (1 - o) * q.v[i]; q.v[3] = o * ca * ONE + (1 - o) * q.v[3]; q.tol += 4 + mtol * ONE; };
    auto locked = [&](double o) { o *= m; double al = q.v[3] / ONE; for (int i = 0; i < 3; i++) q.v[i] = o * al * c[i] + (1 - o) * q.v[i]; q.tol += 4 + mtol * ONE; };
    auto pigment = [&](double o, double oa, double ca, bool keep) { // alpha as for the plain mode; colour by the weighted geometric mean of the spectra
        double floor_ = keep || a == 1 ? 150 / ONE : 0; if (o < floor_) { q.tol += 150; o = floor_; oa = o * m; } bool was = q.v[3] > 0; bool clear = true; for (int i = 0; i < 3; i++) clear = clear && q.known[i];
        double al0 = q.v[3] / ONE, top = keep ? oa * al0 : oa, den = top + (1 - oa) * al0, na = keep ? q.v[3] : oa * ca * ONE + (1 - oa) * q.v[3]; double tola = 4 + mtol * ONE;
        if (!was && q.tol == 0) { for (int i = 0; i < 3; i++) q.v[i] = keep ? q.v[i] * (1 - oa) : oa * ca * c[i]; q.v[3] = na; q.tol += tola; return; }
        if (clear && q.tol == 0 && a == 1 && q.v[3] > 2000) {
            float sa[10] = {0}, sb[10] = {0}, res[10], rgb[3]; rgb_to_spectral((float)(c[0] / ONE), (float)(c[1] / ONE), (float)(c[2] / ONE), sa); rgb_to_spectral((float)(q.v[0] / q.v[3]), (float)(q.v[1] / q.v[3]), (float)(q.v[2] / q.v[3]), sb);
            double fa = top / den; for (int i = 0; i < 10; i++) res[i] = (float)(std::pow((double)sa[i], fa) * std::pow((double)sb[i], 1 - fa)); spectral_to_rgb(res, rgb); for (int i = 0; i < 3; i++) q.v[i] = rgb[i] * na; q.tol += tola + 60;
        } else q.known[0] = q.known[1] = q.known[2] = false;
        q.v[3] = na; if (!keep) q.tol += tola; };
    if (paint < 1) { if (normal > 0) over(normal * op * (1 - paint), a); if (lock > 0 && a > 0) locked(lock * op * (1 - col) * (1 - post) * (1 - paint)); }
    if (paint > 0) { if (normal > 0) pigment(normal * op * paint, normal * op * paint * m, a, false); if (lock > 0 && a > 0) pigment(lock * op * (1 - col) * (1 - post) * paint, lock * op * (1 - col) * (1 - post) * paint * m, a, true); }
    bool exact = q.tol == 0; // the two modes below amplify what is not known exactly
    if (col > 0) { if (!exact) q.known[0] = q.known[1] = q.known[2] = false; else { double o = col * op * m, al = q.v[3] / ONE; double s[3] = {0, 0, 0}, lb = 0, lt = 0; static const double W[3] = {0.2126, 0.7152, 0.0722}; for (int i = 0; i < 3; i++) { if (al > 0) s[i] = q.v[i] / al; lb += W[i] * s[i]; lt += W[i] * c[i]; }
            double t[3], l = 0, mn = 1e9, mx = -1e9; for (int i = 0; i < 3; i++) { t[i] = c[i] + lb - lt; l += W[i] * t[i]; mn = std::min(mn, t[i]); mx = std::max(mx, t[i]); } l = std::max(0., std::min(ONE, l));
            if (mn < 0) for (int i = 0; i < 3; i++) t[i] = l + (t[i] - l) * l / (l - mn); if (mx > ONE) { for (int i = 0; i < 3; i++) t[i] = l + (t[i] - l) * (ONE - l) / (mx - l); if (mn < 0) q.known[0] = q.known[1] = q.known[2] = false; }
            for (int i = 0; i < 3; i++) q.v[i] = o * t[i] * al + (1 - o) * q.v[i]; q.tol += 30 + mtol * ONE; } exact = false; }
    if (post > 0) { double num = std::max(1., std::min(128., std::floor(d.posterize_num * 100.0f + 0.5))); for (int i = 0; i < 3; i++) { double f = q.v[i] / ONE * num; if (!exact || std::fabs(f - std::floor(f) - 0.5) < 1e-3) { q.known[i] = false; continue; } double t = std::min(q.v[3], std::floor(f + 0.5) / num * ONE), o = post * op * m; q.v[i] = o * t + (1 - o) * q.v[i]; } q.tol += 5 + mtol * ONE; }
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); if (c.init == 1) c.init = 5; rt_set_threads(std::max(1, p.ci("threads", 1))); int dx = std::max(-500, std::min(500, p.ci("dx"))), dy = std::max(-500, std::min(500, p.ci("dy"))); StoreCfg c2 = c; c2.mode = p.ci("mode2"); c2.dx = dx; c2.dy = dy; c2.threadsafe = false;
    SimSurface *A = surf_new(c), *B = surf_new(c2); CHECK(A && B, "harness", "no surface"); Store &a = *A->st, &b = *B->st; int ts = a.ts; std::vector<Dab> act; bool open = false; Snap before; double work = 0; u64 checked = 0, shifted = 0, unknown = 0, sym = 0;
    auto px = [&](Store &s, int x, int y, u16 *o) { TI t{(int)std::floor((double)x / ts), (int)std::floor((double)y / ts)}; auto it = s.tiles.find(t); if (it == s.tiles.end()) s.pixel(x, y, o); else memcpy(o, &it->second.px[((y - t.second * ts) * ts + x - t.first * ts) * 4], 8); };
    auto end = [&]() {
        if (!open) return; L_end(IF(A)); L_end(IF(B)); a.idle("end_atomic"); open = false;
        for (auto &t : a.tiles) { // against the model
            auto it = before.find(t.first); int X = t.first.first * ts, Y = t.first.second * ts; std::vector<const Dab *> near; for (auto &d : act) if (d.x + d.radius + 3 >= X && d.x - d.radius - 3 <= X + ts && d.y + d.radius + 3 >= Y && d.y - d.radius - 3 <= Y + ts) near.push_back(&d);
            for (int i = 0; i < ts * ts; i++) {
                int x = X + i % ts, y = Y + i / ts; u16 o[4]; if (it != before.end()) memcpy(o, &it->second[i * 4], 8); else a.pixel(x, y, o); const u16 *n = &t.second.px[i * 4]; Px q; for (int k = 0; k < 4; k++) q.v[k] = o[k]; const Dab *last = 0;
                for (auto d : near) { double tol, m = opacity(*d, x, y, tol); if (m == 0 && tol == 0) continue; last = d; if (m < 0) { for (int k = 0; k < 4; k++) q.known[k] = false; continue; } blend(q, *d, m, tol); }
                for (int k = 0; k < 4; k++) { if (!q.known[k]) { unknown++; continue; } checked += last != 0; if (std::fabs(n[k] - q.v[k]) > q.tol + (last ? 1.01 : 0)) sim_fail(last ? "wrong-mark" : "mark-outside", "pixel (%d,%d) became %d,%d,%d,%d (was %d,%d,%d,%d); channel %d should be %.1f+-%.1f after %d dabs there%s%s", x, y, n[0], n[1], n[2], n[3], o[0], o[1], o[2], o[3], k, q.v[k], q.tol, q.layers, last ? ", last " : "", last ? dab_str(*last).c_str() : ""); }
                if (last && (checked & 255) == 0) sim_state(mix64((u64)(n[3] >> 12) | (u64)(n[0] >> 12) << 4 | (u64)q.layers << 8 | (u64)(o[3] >> 12) << 12 | (u64)(last->lock > 0) << 20 | (u64)(last->colorize > 0) << 21 | (u64)(last->posterize > 0) << 22 | (u64)(last->paint > 0) << 23 | (u64)(last->radius < 3) << 24));
            }
        }
        for (auto &t : a.tiles) for (int i = 0; i < ts * ts; i++) { int x = t.first.first * ts + i % ts, y = t.first.second * ts + i / ts; u16 o[4]; px(b, x + dx, y + dy, o); const u16 *n = &t.second.px[i * 4]; if (memcmp(o, n, 8)) sim_fail("moved-differs", "the same work moved by (%d,%d) pixels leaves pixel (%d,%d) as %d,%d,%d,%d instead of %d,%d,%d,%d (%zu dabs in the transaction)", dx, dy, x, y, o[0], o[1], o[2], o[3], n[0], n[1], n[2], n[3], act.size()); shifted++; }
        before = a.snap(); act.clear(); };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(); L_begin(IF(A)); L_begin(IF(B)); open = true; } else if (o.k == "end") end();
        else if (o.k == "dab") {
            Dab d = dab_from(o); if (!(d.radius < 60) || !(std::fabs(d.x) < 600) || !(std::fabs(d.y) < 600) || !std::isfinite(d.angle)) continue; d.x = std::floor(d.x * 64) / 64; d.y = std::floor(d.y * 64) / 64; work += 64 + d.radius * d.radius * 4; if (work > 60000) break; if (!open) { L_begin(IF(A)); L_begin(IF(B)); open = true; }
            L_draw(IF(A), d); Dab e = d; e.x += dx; e.y += dy; L_draw(IF(B), e); if (!nodraw(d)) act.push_back(d);
            if (!nodraw(d) && d.x * 2 == std::floor(d.x * 2) && d.y * 2 == std::floor(d.y * 2) && d.ratio <= 25 && std::fabs(d.angle) < 1000 && d.hardness < 0.999f) { // looks the same turned upside down, and mirrored it is the dab of the opposite angle
                StoreCfg cs; cs.init = 0; SimSurface *S = surf_new(cs), *M = surf_new(cs); Dab f = d; f.a = f.opaque = 1; f.lock = f.colorize = f.posterize = f.paint = 0; L_begin(IF(S)); L_draw(IF(S), f); L_end(IF(S)); f.angle = -f.angle; L_begin(IF(M)); L_draw(IF(M), f); L_end(IF(M)); int R = (int)d.radius + 2, bx = (int)(2 * d.x) - 1, by = (int)(2 * d.y) - 1; sym++;
                for (int y = (int)std::floor(d.y) - R; y <= d.y + R; y++) for (int x = (int)std::floor(d.x) - R; x <= d.x + R; x++) { u16 u[4], v[4], w[4], m[4]; px(*S->st, x, y, u); px(*S->st, bx - x, by - y, v); px(*M->st, x, by - y, w); px(*M->st, bx - x, y, m); int tol = 40; CHECK(abs(u[3] - v[3]) <= tol && abs(u[3] - w[3]) <= tol && abs(u[3] - m[3]) <= tol, "lopsided", "opacity %d at (%d,%d), but %d opposite, %d and %d at the mirrored places for the opposite angle, for %s", u[3], x, y, v[3], w[3], m[3], dab_str(d).c_str()); }
                surf_unref(S); surf_unref(M);
            }
        } else if (o.k == "pick" && open) { if (!(o.arg(2) < 60) || !(std::fabs(o.arg(0)) < 600) || !(std::fabs(o.arg(1)) < 600)) continue; L_pick(IF(A), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), -1); }
    }
    end(); if (checked) sim_nontrivial(); sim_count("probe_modelled_channels", checked); sim_count("probe_moved_pixels", shifted); sim_count("probe_unmodelled_channels", unknown); sim_count("probe_turned_dabs", sym); sim_hash(store_hash(a)); surf_unref(A); surf_unref(B);
}
static RegProp reg({"C28", "ra", gen, exec});
