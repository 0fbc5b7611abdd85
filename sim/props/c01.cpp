// C01: parallel rendering leaves exactly the canvas one thread would; no data race.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); if (p.cfg["init"] == 1) p.cfg["init"] = 3; gen_sched(r, p, r.chance(0.2) ? 16 : 6); p.cfg["threadsafe"] = 1;
    CanvasGen g; g.nmax = tier ? 24 : 9; g.nmin = 2; g.dab.area = r.pick(std::vector<double>{15, 40, 70}); g.dab.rmin = 1; g.dab.rmax = r.pick(std::vector<double>{12, 22, 40}); g.maxlines = 6; g.symm_mid = true; g.p_pick = 0.25; g.p_end = 0.2; g.pick_rmax = r.chance(0.3) ? 60 : 25; g.spread = r.chance(0.2);
    if (r.chance(0.03)) { g.cycles = true; g.nmax = 3; g.nmin = 1; }
    gen_canvas(r, p, g);
}
struct PickRes { Col c; float paint; };
static void run(SimSurface *s, const Plan &p, std::vector<Snap> &snaps, std::vector<PickRes> &picks, std::vector<std::vector<int>> &rects) {
    bool open = false; MyPaintRectangle rc[16];
    auto end = [&](int n) { if (!open) return; MyPaintRectangles rr{std::max(1, std::min(16, n)), rc}; memset(rc, 0, sizeof rc); L_end(IF(s), &rr); open = false; s->st->idle("end_atomic"); snaps.push_back(s->st->snap()); std::vector<int> v; for (int i = 0; i < rr.num_rectangles && i < 16; i++) { v.push_back(rc[i].x); v.push_back(rc[i].y); v.push_back(rc[i].width); v.push_back(rc[i].height); } rects.push_back(v); };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(1); L_begin(IF(s)); open = true; }
        else if (o.k == "end") end(o.iarg(0, 1));
        else if (o.k == "dab") { Dab d = dab_from(o); if (!open) { L_begin(IF(s)); open = true; } L_draw(IF(s), d); }
        else if (o.k == "symm") L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5));
        else if (o.k == "pick") { rt_set_rand(0, (u64)o.arg(4, 1)); Col c = L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); s->st->idle("get_color"); picks.push_back({c, (float)o.arg(3)}); }
    }
    end(1);
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); std::vector<Snap> a, b; std::vector<PickRes> pa, pb; std::vector<std::vector<int>> ra, rb;
    c.threadsafe = false; rt_set_threads(1); SimSurface *s = surf_new(c); run(s, p, a, pa, ra);
    c.threadsafe = p.ci("threadsafe") != 0; rt_set_threads(std::max(1, p.ci("threads", 1))); SimSurface *t = surf_new(c); run(t, p, b, pb, rb);
    std::string d;
    CHECK(a.size() == b.size(), "harness", "transaction counts");
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) { // report the first differing pixel
        Store A, B; A.cfg = B.cfg = c; A.ts = B.ts = s->st->ts; for (auto &x : a[i]) A.tiles[x.first].px = x.second; for (auto &x : b[i]) B.tiles[x.first].px = x.second; d = diff_stores(A, B);
        if (!d.empty()) sim_fail("parallel-canvas-differs", "after transaction %zu with %d threads: %s (one thread versus many)", i + 1, p.ci("threads", 1), d.c_str()); }
    CHECK(ra == rb, "parallel-report-differs", "damage rectangles differ between one thread and many");
    for (size_t i = 0; i < pa.size(); i++) {
        const Col &x = pa[i].c, &y = pb[i].c; for (const Col *q : {&x, &y}) CHECK(q->r >= 0 && q->r <= 1 && q->g >= 0 && q->g <= 1 && q->b >= 0 && q->b <= 1 && q->a >= 0 && q->a <= 1, "pick-invalid", "pickup %zu returned %g,%g,%g,%g", i, q->r, q->g, q->b, q->a);
        if (pa[i].paint < 0) CHECK(std::fabs(x.a - y.a) < 2e-3 && (x.a < 0.05 || (std::fabs(x.r - y.r) < 1e-2 && std::fabs(x.g - y.g) < 1e-2 && std::fabs(x.b - y.b) < 1e-2)), "parallel-pick-differs", "pickup %zu: %g,%g,%g,%g with one thread, %g,%g,%g,%g with many", i, x.r, x.g, x.b, x.a, y.r, y.g, y.b, y.a);
    }
    sim_hash(store_hash(*t->st)); sim_state(mix64(t->st->max_conc * 64 + std::min<u64>(63, SH->nsw))); if (t->st->max_conc > 1) sim_nontrivial(); sim_count("probe_two_tiles_out_at_once", t->st->max_conc > 1);
    Hash hs; for (int i = 0; i < SH->nsw && i < 4000; i++) { hs.add(SH->sw[i].tid); if (i % 64 == 63) sim_state(hs.h); } sim_state(hs.h);
    surf_unref(s); surf_unref(t); al_check_heap("end");
}
static RegProp reg({"C01", "r", gen, exec});
