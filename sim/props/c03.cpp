// C03: damage reports cover every changed pixel.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["threadsafe"] = 0; CanvasGen g; g.nmax = tier ? 50 : 24; g.dab.area = r.pick(std::vector<double>{8, 40, 90}); g.dab.rmax = r.pick(std::vector<double>{3, 12}); g.symm = r.chance(0.75); g.symm_mid = r.chance(0.5); g.maxlines = r.chance(0.4) ? 90 : 20; g.p_pick = 0.08; g.p_end = 0.2; g.spread = r.chance(0.15); g.dab.weird = r.chance(0.3);
    gen_canvas(r, p, g);
    bool oom = r.chance(0.35); p.cfg["oom"] = oom; for (auto &o : p.ops) { if (o.k == "end" && r.chance(0.25)) o.a = {(double)r.pick(std::vector<int>{1, 1, 2, 3, 8, 32, 60, 100})}; if (o.k == "begin" && oom && r.chance(0.5)) o.a = {(double)r.range(1, 2)}; // nothing, or only the first allocation (the matrices), succeeds
        if (o.k == "symm" && r.chance(oom ? 0.5 : 0.15)) { o.a[0] = 1; o.a[4] = r.range(0, 4) ? r.range(3, 4) : o.a[4]; o.a[5] = r.pick(std::vector<int>{20, 31, 32, 33, 34, 50, 63, 64, 65, 70, 100}); } } // around and beyond the rectangles the surface starts with
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); rt_set_threads(1); SimSurface *s = surf_new(c); Store &st = *s->st; Snap before; bool open = false; int ndrawn = 0; bool symm_ever = false; double bx0 = 1e9, by0 = 1e9, bx1 = -1e9, by1 = -1e9; int ts = st.ts; bool symm_now = false; u64 covered = 0;
    auto begin = [&](int oom) { before = st.snap(); if (oom == 1 || oom == 2) al_inject(al_calls() + oom - 1, 1000000, 0, 0); L_begin(IF(s)); al_inject_off(); open = true; ndrawn = 0; bx0 = by0 = 1e9; bx1 = by1 = -1e9; symm_ever = symm_now; };
    auto end = [&](int cap) {
        if (!open) return; cap = std::max(1, std::min(120, cap)); std::vector<MyPaintRectangle> v(cap + 4); for (auto &q : v) q.x = q.y = q.width = q.height = 0x55AA; MyPaintRectangles rr{cap, v.data()};
        L_end(IF(s), &rr); open = false; st.idle("end_atomic");
        CHECK(rr.num_rectangles >= 0 && rr.num_rectangles <= cap, "rect-count", "%d rectangles reported into room for %d", rr.num_rectangles, cap);
        for (int i = cap; i < cap + 4; i++) CHECK(v[i].x == 0x55AA && v[i].width == 0x55AA && v[i].height == 0x55AA && v[i].y == 0x55AA, "rect-overrun", "a rectangle beyond the caller's %d was written", cap);
        if (!ndrawn) CHECK(rr.num_rectangles == 0, "rect-stale", "%d rectangles reported although nothing was drawn", rr.num_rectangles);
        for (auto &t : st.tiles) {
            auto it = before.find(t.first); const std::vector<u16> *o = it == before.end() ? 0 : &it->second; std::vector<u16> init; if (o && *o == t.second.px) continue;
            if (!o) { init.resize(ts * ts * 4); for (int i = 0; i < ts * ts; i++) st.pixel(t.first.first * ts + i % ts, t.first.second * ts + i / ts, &init[i * 4]); o = &init; }
            for (int i = 0; i < ts * ts; i++) if (memcmp(&(*o)[i * 4], &t.second.px[i * 4], 8)) {
                int x = t.first.first * ts + i % ts, y = t.first.second * ts + i / ts; bool in = false; covered++;
                for (int k = 0; k < rr.num_rectangles && !in; k++) in = x >= v[k].x && y >= v[k].y && x < v[k].x + v[k].width && y < v[k].y + v[k].height;
                if (!in) sim_fail("change-not-reported", "pixel (%d,%d) changed but none of the %d reported rectangles (room for %d) covers it; first is x=%d y=%d w=%d h=%d", x, y, rr.num_rectangles, cap, v[0].x, v[0].y, v[0].width, v[0].height);
            }
        }
        if (!symm_ever && ndrawn) for (int k = 0; k < rr.num_rectangles; k++) if (v[k].width > 0 && v[k].height > 0) CHECK(v[k].x >= bx0 - 4 && v[k].y >= by0 - 4 && v[k].x + v[k].width <= bx1 + 5 && v[k].y + v[k].height <= by1 + 5, "report-too-large", "reported rectangle x=%d y=%d w=%d h=%d reaches beyond the dabs drawn (%.1f..%.1f, %.1f..%.1f)", v[k].x, v[k].y, v[k].width, v[k].height, bx0, bx1, by0, by1);
        sim_state(mix64(rr.num_rectangles * 131 + cap)); for (int k = 0; k < rr.num_rectangles; k++) sim_hash(mix64(v[k].x * 31 + v[k].y) + v[k].width * 77 + v[k].height);
    };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(1); begin(o.iarg(0)); } else if (o.k == "end") end(o.iarg(0, 1));
        else if (o.k == "dab") { if (!open) begin(0); Dab d = dab_from(o); L_draw(IF(s), d); if (!nodraw(d)) { ndrawn++; bx0 = std::min(bx0, (double)d.x - d.radius); by0 = std::min(by0, (double)d.y - d.radius); bx1 = std::max(bx1, (double)d.x + d.radius); by1 = std::max(by1, (double)d.y + d.radius); } }
        else if (o.k == "symm") { L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5)); symm_now = o.iarg(0) != 0; symm_ever |= symm_now; }
        else if (o.k == "pick") { rt_set_rand(0, (u64)o.arg(4, 1)); L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); st.idle("get_color"); }
    }
    end(1); if (covered) sim_nontrivial(); sim_count("probe_changed_pixels_covered", covered); sim_hash(store_hash(st)); surf_unref(s); al_check_heap("end");
}
static RegProp reg({"C03", "ra", gen, exec});
