// C16: picking up colour reports the canvas and does not alter it.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); if (p.cfg["init"] == 1) p.cfg["init"] = 3; bool uni = r.chance(0.5); if (uni) p.cfg["init"] = 4; else if (r.chance(0.2)) p.cfg["init"] = 2;
    if (uni) { int a = r.chance(0.35) ? 1 << 15 : r.chance(0.15) ? 0 : r.chance(0.2) ? r.range(1, 200) : r.range(200, 32768); p.cfg["ua"] = a; for (const char *k : {"ur", "ug", "ub"}) p.cfg[k] = r.chance(0.2) ? a : r.chance(0.2) ? 0 : r.range(0, a); }
    p.cfg["threadsafe"] = r.chance(0.5); if (p.cfg["threadsafe"] != 0) { gen_sched(r, p, 6); }
    DabGen g; g.area = r.pick(std::vector<double>{10, 40, 70}); g.rmax = r.pick(std::vector<double>{8, 25}); int n = r.range(2, tier ? 30 : 12);
    auto pick = [&](double x, double y, double rad) { p.add("pick", {f32(x), f32(y), f32(rad), f32(r.chance(0.35) ? -1 : r.chance(0.4) ? 0 : r.chance(0.5) ? 1 : r.u()), (double)r.range(0, 4), (double)r.range(1, 1 << 30)}); };
    auto rad = [&]() { return r.chance(0.3) ? r.uni(0, 2.2) : r.chance(0.1) ? r.uni(40, 90) : r.uni(1, 30); };
    for (int i = 0; i < n; i++) {
        double u = r.u(); if (uni && i == 0) { int k = r.range(1, 4); while (k--) pick(r.uni(-200, 200), r.uni(-200, 200), rad()); }
        if (u < 0.12) p.add("end"); else if (u < 0.45) pick(r.uni(-g.area, g.area), r.uni(-g.area, g.area), rad());
        else if (u < 0.47) p.add("bigpick", {f32(r.chance(0.5) ? (65536 * r.range(1, 2) + r.u()) / 7 : r.uni(200, 20000)), f32(r.chance(0.5) ? 0 : r.chance(0.5) ? 1 : -1), (double)r.pick(std::vector<int>{0, 2, 4}), (double)r.range(1, 1 << 30)});
        else if (u < 0.49) p.add("fixed", {(double)r.range(1, 80), (double)r.range(1, 80), f32(r.uni(-10, 80)), f32(r.uni(-10, 80)), f32(r.uni(0, 30)), f32(r.chance(0.4) ? -1 : r.chance(0.5) ? 0 : r.u()), (double)r.range(1, 1 << 30)});
        else if (u < 0.6) { // an opaque disc, then pickups inside it
            Dab d = gen_dab(r, g); d.radius = (float)r.uni(10, 40); d.hardness = 1; d.softness = 0; d.opaque = 1; d.a = r.chance(0.8) ? 1.f : r.chance(0.5) ? 0.f : (float)r.u(); d.ratio = 1; d.lock = d.colorize = d.posterize = d.paint = 0; p.add("disc", dab_args(d)); int k = r.range(1, 3); while (k--) { double pr = r.chance(0.3) ? r.uni(0.2, 2) : r.uni(1, d.radius - 4), room = std::max(0.0, d.radius - pr - 4), a = r.uni(0, 6.2832), q = r.u() * room; pick(d.x + cos(a) * q, d.y + sin(a) * q, pr); } }
        else p.add("dab", dab_args(gen_dab(r, g)));
    }
    p.add("end");
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); if (c.init == 1) c.init = 3; u32 ua = std::max(0, std::min(32768, p.ci("ua"))); c.uni[3] = ua; int k = 0; for (const char *q : {"ur", "ug", "ub"}) c.uni[k++] = std::max(0, std::min((int)ua, p.ci(q)));
    rt_set_threads(std::max(1, p.ci("threads", 1))); SimSurface *s = surf_new(c); c.threadsafe = false; SimSurface *ref = surf_new(c); Store &st = *s->st; int ts = st.ts; bool open = false, ropen = false, multi = p.ci("threads", 1) > 1 && p.ci("threadsafe");
    std::vector<Dab> pending; u64 npick = 0, unif = 0, ontop = 0, ranged = 0, bigs = 0; double work = 0;
    auto end = [&]() { if (open) L_end(IF(s)); if (ropen) L_end(IF(ref)); open = ropen = false; st.idle("end_atomic"); pending.clear(); std::string d = diff_stores(st, *ref->st); CHECK(d.empty(), "pickup-altered-canvas", "the canvas differs from the same history without the %llu pickups: %s", (unsigned long long)npick, d.c_str()); sim_hash(store_hash(st)); };
    for (auto &o : p.ops) {
        if (o.k == "end") end();
        else if (o.k == "dab" || o.k == "disc") { Dab d = dab_from(o); if (!(d.radius < 200)) continue; if (!open) { L_begin(IF(s)); L_begin(IF(ref)); open = ropen = true; } L_draw(IF(s), d); L_draw(IF(ref), d); pending.push_back(d); }
        else if (o.k == "bigpick") { // a huge area, of which only one row of tiles exists, in one colour
            double rad = std::max(1.0, std::min(25000.0, o.arg(0))), paint = std::max(-1.0, std::min(1.0, o.arg(1))); if (bigs++ > 1) continue; StoreCfg bc; bc.init = 4; bc.uni[0] = 9000; bc.uni[1] = 0; bc.uni[2] = 20000; bc.uni[3] = 25000; SimSurface *bs = surf_new(bc); bs->st->only_row = 0; rt_set_rand(std::max(0, std::min(4, o.iarg(2))), (u64)o.arg(3, 1)); IF(bs)->get_color = bs->pick0; L_begin(IF(bs)); Col q = L_pick(IF(bs), 5, 5, (float)rad, (float)paint); bs->st->idle("get_color"); L_end(IF(bs));
            for (float v : {q.r, q.g, q.b, q.a}) CHECK(v >= 0 && v <= 1, "pick-invalid", "pickup with radius %g returned %g,%g,%g,%g", rad, q.r, q.g, q.b, q.a); CHECK(std::fabs(q.a - 25000 / 32768.) < 2e-3, "pick-uniform", "pickup with radius %g paint %g over alpha %g returned alpha %g", rad, paint, 25000 / 32768., q.a);
            if (paint <= 0) CHECK(std::fabs(q.r - .36) < 5e-3 && std::fabs(q.g) < 5e-3 && std::fabs(q.b - .8) < 5e-3, "pick-uniform", "pickup with radius %g paint %g over colour 0.36,0,0.8 returned %g,%g,%g", rad, paint, q.r, q.g, q.b); surf_unref(bs); sim_count("probe_huge_pickups"); npick++; }
        else if (o.k == "fixed") { // a fresh surface of fixed size, whose initial pixels lie outside the normal range
            int w = std::max(1, std::min(200, o.iarg(0, 1))), h = std::max(1, std::min(200, o.iarg(1, 1))); MyPaintFixedTiledSurface *f = LIB(mypaint_fixed_tiled_surface_new(w, h)); MyPaintSurface *m = LIB(mypaint_fixed_tiled_surface_interface(f)); double rad = std::max(0.0, std::min(60.0, o.arg(4))); work += (rad + 17) * (rad + 17); rt_set_rand(0, (u64)o.arg(6, 1)); L_begin(m); Col q = L_pick(m, (float)std::max(-500.0, std::min(500.0, o.arg(2))), (float)std::max(-500.0, std::min(500.0, o.arg(3))), (float)rad, (float)o.arg(5)); L_end(m); { InLib l; mypaint_surface_unref(m); }
            for (float v : {q.r, q.g, q.b, q.a}) CHECK(v >= 0 && v <= 1, "pick-invalid", "pickup at %g,%g radius %g paint %g from a fresh %dx%d surface returned %g,%g,%g,%g", o.arg(2), o.arg(3), rad, o.arg(5), w, h, q.r, q.g, q.b, q.a); npick++; sim_count("probe_fresh_fixed_pickups"); }
        else if (o.k == "pick") {
            double x = std::max(-2e3, std::min(2e3, o.arg(0))), y = std::max(-2e3, std::min(2e3, o.arg(1))), rad = std::max(0.0, std::min(125.0, o.arg(2))), paint = o.arg(3); work += (rad + 17) * (rad + 17); if (work > 60000) continue;
            int mode = std::max(0, std::min(4, o.iarg(4))); u64 seed = (u64)o.arg(5, 1); rt_set_rand(mode, seed); bool idle = pending.empty(); Snap before; if (idle) { int R = (int)std::max(1.0, rad) + 3; st.touch_all((int)x - R, (int)y - R, (int)x + R, (int)y + R); before = st.snap(); }
            Col q = L_pick(IF(s), (float)x, (float)y, (float)rad, (float)paint); st.idle("get_color"); npick++;
            for (float v : {q.r, q.g, q.b, q.a}) CHECK(v >= 0 && v <= 1, "pick-invalid", "pickup at %g,%g radius %g paint %g returned %g,%g,%g,%g", x, y, rad, paint, q.r, q.g, q.b, q.a);
            if (!multi && seed % 4 == 1) { rt_set_rand(mode, seed); Col z = L_pick(IF(s), (float)x, (float)y, (float)rad, 1.f); rt_set_rand(mode, seed); float al; { InLib l; al = mypaint_surface_get_alpha(IF(s), (float)x, (float)y, (float)rad); } st.idle("get_alpha"); sim_count("probe_get_alpha"); CHECK(al == z.a, "pick-alpha", "get_alpha at %.9g,%.9g radius %g returned %.9g, picking up the colour there %.9g", x, y, rad, al, z.a); }
            if (idle) for (auto &t : before) CHECK(st.tiles[t.first].px == t.second, "pickup-altered-canvas", "pickup at %g,%g radius %g changed tile (%d,%d) although nothing was pending", x, y, rad, t.first.first, t.first.second);
            // what is there: pixels whose centre is well inside, and all that may contribute
            double R = std::max(1.0, rad); int x0 = (int)std::floor(x - R - 2), y0 = (int)std::floor(y - R - 2), x1 = (int)std::ceil(x + R + 2), y1 = (int)std::ceil(y + R + 2); float lo = 9, hi = -9; double sw = 0, sc[4] = {0, 0, 0, 0}; float clo[3] = {9, 9, 9}, chi[3] = {-9, -9, -9}; bool same = true; u16 f[4]; bool any = false; (void)any;
            // the expected canvas is what the surface without pickups shows after a transaction boundary, so that pending dabs count
            Store &rs = *ref->st; if (ropen) { L_end(IF(ref)); L_begin(IF(ref)); }
            for (int yy = y0; yy <= y1; yy++) for (int xx = x0; xx <= x1; xx++) { double dx = xx + 0.5 - x, dy = yy + 0.5 - y; if (dx * dx + dy * dy > (R + 1.5) * (R + 1.5)) continue; u16 v[4]; rs.get(xx, yy, v); double w = 1 - (dx * dx + dy * dy) / (R * R); if (w > 0) { sw += w; for (int i = 0; i < 4; i++) sc[i] += w * v[i] / 32768.; } if (!any) memcpy(f, v, 8), any = true; else same &= !memcmp(f, v, 8); float a = v[3] / 32768.f; lo = std::min(lo, a); hi = std::max(hi, a); if (v[3]) for (int i = 0; i < 3; i++) { float z = v[i] / (float)v[3]; clo[i] = std::min(clo[i], z); chi[i] = std::max(chi[i], z); } }
            if (!any) continue; double ea = 6e-4; CHECK(q.a >= lo - ea && q.a <= hi + ea, "pick-alpha-range", "pickup at %.9g,%.9g radius %g paint %g returned alpha %.7g, the alphas there are %.7g..%.7g", x, y, rad, paint, q.a, lo, hi); ranged++;
            const float qc[3] = {q.r, q.g, q.b}; if (q.a > 0.002 && paint <= 0) for (int i = 0; i < 3; i++) { double e = 2e-3 + 1.2e-3 / q.a; CHECK(qc[i] >= clo[i] - e && qc[i] <= chi[i] + e, "pick-colour-range", "pickup at %.9g,%.9g radius %g paint %g returned colour %d = %.7g (alpha %.7g), the colours there are %.7g..%.7g", x, y, rad, paint, i, qc[i], q.a, clo[i], chi[i]); }
            // where every pixel is sampled, the result is the average over the area, weighted by one minus the squared relative distance
            if (R >= 3 && sw > 8 && (paint < 0 || mode == 1)) { sim_count("probe_weighted_averages"); double wa = sc[3] / sw; CHECK(std::fabs(q.a - wa) < 2e-3, "pick-average", "pickup at %.9g,%.9g radius %g paint %g returned alpha %.7g, the average there is %.7g", x, y, rad, paint, q.a, wa);
                if (wa > 0.01 && paint <= 0) for (int i = 0; i < 3; i++) CHECK(std::fabs(qc[i] - sc[i] / sc[3]) < 2e-3 + 2e-3 / wa, "pick-average", "pickup at %.9g,%.9g radius %g paint %g returned colour %d = %.7g, the average there is %.7g (alpha %.7g)", x, y, rad, paint, i, qc[i], sc[i] / sc[3], wa); }
            if (same) { unif++; if (pending.size()) ontop++;
                if (f[3] > 60 && paint > 0) { for (int i = 0; i < 3; i++) { double z = f[i] / (double)f[3]; bool sparse = (mode != 1 && mode != 3) || R <= 2; /* sampling every pixel of a large area accumulates rounding, as the library documents */ CHECK(std::fabs(qc[i] - z) < (sparse ? 0.04 : 0.6), "pick-uniform", "pickup at %.9g,%.9g radius %g paint %g over the uniform colour %d,%d,%d,%d returned %.6g,%.6g,%.6g,%.6g", x, y, rad, paint, f[0], f[1], f[2], f[3], q.r, q.g, q.b, q.a); } }
                if (f[3] == 0) CHECK(q.a <= ea, "pick-uniform", "pickup over a transparent area returned alpha %g", q.a); }
            sim_state(mix64((u64)(lo * 16) * 1000 + (u64)(hi * 16) * 20 + (u64)(q.a * 16)) + (u64)(paint * 4 + 4) + mode * 7);
            // again after the transaction: nothing new is seen
            if (!idle && !multi && seed % 3 == 0) { if (open) { L_end(IF(s)); open = false; if (ropen) { L_end(IF(ref)); ropen = false; } pending.clear(); } rt_set_rand(mode, seed); Col z = L_pick(IF(s), (float)x, (float)y, (float)rad, (float)paint); CHECK(z.r == q.r && z.g == q.g && z.b == q.b && z.a == q.a, "pick-missed-pending", "pickup at %g,%g radius %g paint %g returned %g,%g,%g,%g with dabs pending, %g,%g,%g,%g once they were finished", x, y, rad, paint, q.r, q.g, q.b, q.a, z.r, z.g, z.b, z.a); sim_count("probe_repeated_after_transaction"); }
        }
    }
    end(); if (npick) sim_nontrivial(); sim_count("probe_pickups", npick); sim_count("probe_uniform_areas", unif); sim_count("probe_uniform_with_pending_dabs", ontop); sim_count("probe_alpha_ranges", ranged); sim_count("probe_parallel_pickups", st.max_conc > 1 ? 1 : 0);
    surf_unref(s); surf_unref(ref); al_check_heap("end");
}
static RegProp reg({"C16", "ra", gen, exec});
