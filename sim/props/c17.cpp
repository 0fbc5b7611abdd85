// C17: painting outside a fixed-size surface has no effect inside it.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    bool big = r.chance(0.2); auto size = [&]() { int ts = MYPAINT_TILE_SIZE; return r.chance(0.3) ? ts * r.range(1, 4) + r.range(-1, 1) : r.range(1, big ? 400 : 3 * ts); }; int w = std::max(1, size()), h = std::max(1, size()); p.cfg["w"] = w; p.cfg["h"] = h; p.cfg["mode"] = r.range(0, 1); p.cfg["iseed"] = r.range(1, 1 << 20); p.cfg["clear"] = r.range(0, 3); p.cfg["threads"] = r.pick(std::vector<int>{1, 1, 4}); if (p.cfg["threads"] > 1) { p.cfg["p_access"] = 0.001; p.cfg["p_hot"] = 0.2; p.cfg["sseed"] = r.range(1, 1 << 30); }
    DabGen g; g.rmin = 1; g.rmax = r.pick(std::vector<double>{10, 30, 60}); g.weird = r.chance(0.1); int n = r.range(3, tier ? 50 : 20);
    auto pt = [&](double &x, double &y) { // inside, on an edge or corner, outside near and far
        double u = r.u(), m = g.rmax; auto e = [&](double s, double &v) { double q = r.u(); v = q < 0.35 ? r.uni(0, s) : q < 0.6 ? (r.chance(0.5) ? 0 : s) + r.uni(-3, 3) : q < 0.85 ? (r.chance(0.5) ? -r.uni(0, m) : s + r.uni(0, m)) : (r.chance(0.5) ? -r.uni(m, 500) : s + r.uni(m, 500)); }; (void)u; e(w, x); e(h, y); };
    if (r.chance(0.4)) p.add("symm", {1, f32(r.uni(-20, w + 20)), f32(r.uni(-20, h + 20)), f32(r.uni(-180, 180)), (double)r.range(0, 4), (double)r.range(2, 6)});
    for (int i = 0; i < n; i++) {
        double u = r.u(), x, y; pt(x, y);
        if (u < 0.14) p.add("end", {(double)r.range(1, 4)}); else if (u < 0.35) p.add("pick", {f32(x), f32(y), f32(r.uni(0.3, 40)), f32(r.chance(0.5) ? -1 : r.chance(0.5) ? 0 : r.u()), (double)r.range(1, 1 << 30)});
        else if (u < 0.42) p.add("tile", {(double)r.range(-3, 8), (double)r.range(-3, 8), (double)r.range(0, 1), (double)r.range(1, 1 << 30)});
        else if (u < 0.47) p.add("symm", {(double)r.chance(0.7), f32(r.uni(-20, w + 20)), f32(r.uni(-20, h + 20)), f32(r.uni(-180, 180)), (double)r.range(0, 4), (double)r.range(2, 6)});
        else { Dab d = gen_dab(r, g); d.x = (float)x; d.y = (float)y; p.add("dab", dab_args(d)); }
    }
    p.add("end", {1});
}
static void exec(const Plan &p) {
    int w = std::max(1, std::min(700, p.ci("w", 1))), h = std::max(1, std::min(700, p.ci("h", 1))), ts = MYPAINT_TILE_SIZE, tw = (w + ts - 1) / ts, th = (h + ts - 1) / ts; rt_set_threads(std::max(1, std::min(8, p.ci("threads", 1))));
    sim_note("fixed_tiled_surface_new"); MyPaintFixedTiledSurface *f = LIB(mypaint_fixed_tiled_surface_new(w, h)); CHECK(f, "harness", "no surface"); MyPaintSurface *fi = LIB(mypaint_fixed_tiled_surface_interface(f)); MyPaintTiledSurface *ft = (MyPaintTiledSurface *)fi; CHECK(ft->tile_size == ts, "harness", "tile size");
    StoreCfg c; c.mode = p.ci("mode"); c.init = 1; c.fw = tw; c.fh = th; c.seed = (u64)p.c("iseed", 1); SimSurface *s = surf_new(c); Store &st = *s->st; bool open = false; u64 inside = 0, outside = 0, straddle = 0, picks = 0, scrib = 0; double work = 0; size_t n4 = (size_t)ts * ts * 4;
    auto borrow = [&](int tx, int ty, bool ro, std::function<void(u16 *)> fn) { MyPaintTileRequest q; sim_note("tile request"); { InLib l; mypaint_tile_request_init(&q, 0, tx, ty, ro); mypaint_tiled_surface_tile_request_start(ft, &q); } CHECK(q.buffer, "fixed-no-tile", "no buffer for tile (%d,%d) of a %dx%d surface", tx, ty, w, h); rt_access(q.buffer, n4 * 2, !ro); fn(q.buffer); { InLib l; mypaint_tiled_surface_tile_request_end(ft, &q); } };
    auto empty = [&](int tx, int ty, const char *when) { borrow(tx, ty, true, [&](u16 *b) { for (size_t i = 0; i < n4; i++) CHECK(b[i] == 0, "outside-remembered", "%s: outside tile (%d,%d) of a %dx%d surface is not empty: value %zu is %d", when, tx, ty, w, h, i, b[i]); }); };
    auto size = [&](const char *when) { int a = LIB(mypaint_fixed_tiled_surface_get_width(f)), b = LIB(mypaint_fixed_tiled_surface_get_height(f)); CHECK(a == w && b == h, "fixed-size-changed", "after %s the surface reports %dx%d, it was made %dx%d", when, a, b, w, h); };
    auto compare = [&](const char *when) { for (int ty = 0; ty < th; ty++) for (int tx = 0; tx < tw; tx++) borrow(tx, ty, true, [&](u16 *b) { auto &t = st.tile({tx, ty}).px; if (memcmp(b, t.data(), n4 * 2)) for (size_t i = 0; i < n4; i++) if (b[i] != t[i]) sim_fail("fixed-differs", "after %s: pixel (%d,%d) channel %zu of a %dx%d surface is %d, on an unbounded surface it is %d", when, (int)(tx * ts + i / 4 % ts), (int)(ty * ts + i / 4 / ts), i % 4, w, h, b[i], t[i]); });
        empty(-1, 0, when); empty(tw, th - 1, when); empty(0, th, when); size(when); };
    size("construction"); compare("construction");
    if (p.ci("clear")) { Store init; init.cfg.init = p.ci("clear") == 1 ? 0 : 3; init.cfg.seed = c.seed; init.ts = ts; for (int ty = 0; ty < th; ty++) for (int tx = 0; tx < tw; tx++) { auto &v = init.tile({tx, ty}).px; st.tile({tx, ty}).px = v; borrow(tx, ty, false, [&](u16 *b) { memcpy(b, v.data(), n4 * 2); }); } }
    auto end = [&](int cap) { if (!open) return; open = false; MyPaintRectangle ra[8], rb[8]; memset(ra, 0, sizeof ra); memset(rb, 0, sizeof rb); cap = std::max(1, std::min(8, cap)); MyPaintRectangles a{cap, ra}, b{cap, rb}; L_end(fi, &a); L_end(IF(s), &b); st.idle("end_atomic"); CHECK(a.num_rectangles == b.num_rectangles && !memcmp(ra, rb, sizeof ra), "fixed-differs", "damage reported differs from an unbounded surface"); compare("a transaction"); Hash hs; hs.add(store_hash(st)); sim_hash(hs.h); };
    auto begin = [&]() { if (!open) { L_begin(fi); L_begin(IF(s)); open = true; } };
    for (auto &o : p.ops) {
        if (o.k == "end") end(o.iarg(0, 1));
        else if (o.k == "symm") { int t = std::max(0, std::min(4, o.iarg(4))), n = std::max(2, std::min(8, o.iarg(5))); float cx = (float)std::max(-800.0, std::min(800.0, o.arg(1))), cy = (float)std::max(-800.0, std::min(800.0, o.arg(2))); L_symm(s, o.iarg(0), cx, cy, (float)o.arg(3), t, n); InLib l; mypaint_tiled_surface_set_symmetry_state(ft, o.iarg(0), cx, cy, (float)o.arg(3), (MyPaintSymmetryType)t, n); }
        else if (o.k == "dab") {
            Dab d = dab_from(o); if (!(d.radius < 100) || !(std::fabs(d.x) < 1500) || !(std::fabs(d.y) < 1500)) continue; work += (double)(d.radius + 17) * (d.radius + 17); if (work > 120000) continue; begin(); int a = L_draw(fi, d), b = L_draw(IF(s), d); CHECK(a == b, "fixed-differs", "draw_dab returned %d on the fixed surface, %d on an unbounded one: %s", a, b, dab_str(d).c_str());
            bool out = d.x + d.radius < 0 || d.y + d.radius < 0 || d.x - d.radius > tw * ts || d.y - d.radius > th * ts, in = d.x - d.radius > 0 && d.y - d.radius > 0 && d.x + d.radius < tw * ts && d.y + d.radius < th * ts; if (out) outside++; else if (in) inside++; else straddle++; sim_state(mix64((u64)(w * 800 + h)) ^ (u64)(int)(d.x / 16) * 131 ^ (u64)(int)(d.y / 16)); }
        else if (o.k == "pick") {
            float x = (float)std::max(-1500.0, std::min(1500.0, o.arg(0))), y = (float)std::max(-1500.0, std::min(1500.0, o.arg(1))), rad = (float)std::max(0.0, std::min(100.0, o.arg(2))); work += (rad + 17) * (rad + 17); if (work > 120000) continue; u64 seed = (u64)o.arg(4, 1);
            rt_set_rand(0, seed); Col a = L_pick(fi, x, y, rad, (float)o.arg(3)); rt_set_rand(0, seed); Col b = L_pick(IF(s), x, y, rad, (float)o.arg(3)); st.idle("get_color"); picks++;
            CHECK(!memcmp(&a, &b, sizeof a), "fixed-pick-differs", "pickup at %g,%g radius %g paint %g returned %g,%g,%g,%g on a %dx%d surface, %g,%g,%g,%g on an unbounded one that is empty outside", x, y, rad, o.arg(3), a.r, a.g, a.b, a.a, w, h, b.r, b.g, b.b, b.a);
            float R = std::max(1.f, rad) + 1; if (x + R < 0 || y + R < 0 || x - R > tw * ts || y - R > th * ts) CHECK(a.a == 0, "outside-remembered", "pickup at %g,%g radius %g outside a %dx%d surface returned alpha %g", x, y, rad, w, h, a.a); if (!open) compare("a pickup"); }
        else if (o.k == "tile") { // the owner of the surface scribbles on tiles
            int tx = std::max(-1000, std::min(1000, o.iarg(0))), ty = std::max(-1000, std::min(1000, o.iarg(1))); if (open) end(1); bool out = tx < 0 || ty < 0 || tx >= tw || ty >= th; Store v; v.cfg.init = 3; v.cfg.seed = (u64)o.arg(3, 1); v.ts = ts; auto &q = v.tile({tx, ty}).px; borrow(tx, ty, false, [&](u16 *b) { if (!out) CHECK(!memcmp(b, st.tile({tx, ty}).px.data(), n4 * 2), "fixed-differs", "tile (%d,%d) handed out for writing differs from the canvas", tx, ty); memcpy(b, q.data(), n4 * 2); }); if (!out) st.tile({tx, ty}).px = q; else { empty(tx, ty, "writing to that tile"); scrib++; } compare("writing a tile"); }
    }
    end(1); compare("the history"); if (inside + straddle && outside + straddle) sim_nontrivial(); sim_count("probe_dabs_inside", inside); sim_count("probe_dabs_outside", outside); sim_count("probe_dabs_straddling", straddle); sim_count("probe_pickups", picks); sim_count("probe_outside_tile_written", scrib);
    { InLib l; mypaint_surface_unref(fi); } surf_unref(s); al_check_heap("end");
}
static RegProp reg({"C17", "ra", gen, exec});
