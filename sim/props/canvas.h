// Shared workload for the canvas properties: seeded histories of transactions, dabs, pickups, symmetry changes.
#pragma once
#include "../world.h"
struct CanvasGen {
    int nmin = 4, nmax = 40; DabGen dab; bool symm = true; bool symm_mid = false; int maxlines = 40; double p_pick = 0.2; bool pick_any = true; // paint modes
    double p_end = 0.12; bool spread = false; bool cycles = false; double quant = 0; double pick_rmax = 40;
};
static inline void gen_symm_op(Rng &r, Plan &p, const CanvasGen &g) {
    double cx = r.uni(-g.dab.area, g.dab.area), cy = r.uni(-g.dab.area, g.dab.area); if (r.chance(0.3)) cx = std::floor(cx), cy = std::floor(cy);
    p.add("symm", {(double)(r.chance(0.75) ? 1 : 0), f32(cx), f32(cy), f32(r.chance(0.4) ? r.range(-4, 8) * 45 : r.uni(-180, 360)), (double)r.range(0, 4), (double)(r.chance(0.7) ? r.range(2, 7) : r.range(0, g.maxlines))});
}
static inline void gen_canvas(Rng &r, Plan &p, const CanvasGen &g) {
    int n = r.range(g.nmin, g.nmax); DabGen dg = g.dab; if (r.chance(0.12)) dg.weird = true;
    if (g.symm && r.chance(0.5)) gen_symm_op(r, p, g);
    p.add("begin");
    auto pick = [&]() { double pr = g.quant > 0 ? std::floor(r.uni(0.3, g.pick_rmax) / g.quant) * g.quant + g.quant : r.uni(0.3, g.pick_rmax); if (r.chance(0.3)) pr = 1 + r.range(0, 2);
        double x = dg.cx + r.uni(-dg.area, dg.area), y = dg.cy + r.uni(-dg.area, dg.area); if (g.quant > 0) x = std::floor(x / g.quant) * g.quant, y = std::floor(y / g.quant) * g.quant;
        p.add("pick", {f32(x), f32(y), f32(pr), g.pick_any ? f32(r.chance(0.4) ? -1 : r.chance(0.5) ? 0 : r.u()) : -1.0, (double)r.range(1, 1 << 30)}); };
    if (g.cycles) { // fill the dirty list with duplicates: dab - pickup over the same tiles, again and again
        Dab d = gen_dab(r, dg); d.radius = (float)r.uni(40, 75); d.hardness = 1; d.softness = 0; d.opaque = 1; int k = r.range(6, 16); double prr = r.uni(45, 90);
        for (int i = 0; i < k; i++) { Dab e = gen_dab(r, dg); e.x = d.x; e.y = d.y; e.radius = d.radius; e.hardness = std::max(0.2f, e.hardness); e.opaque = std::max(0.1f, e.opaque); p.add("dab", dab_args(e)); p.add("pick", {d.x, d.y, f32(prr), -1.0, 5.0}); if (r.chance(0.2)) p.add("dab", dab_args(gen_dab(r, dg))); }
    }
    for (int i = 0; i < n; i++) {
        double u = r.u();
        if (u < g.p_end) { p.add("end", {(double)r.range(1, 6)}); if (g.symm && r.chance(0.4)) gen_symm_op(r, p, g); p.add("begin"); }
        else if (u < g.p_end + g.p_pick) pick();
        else if (g.symm && g.symm_mid && u < g.p_end + g.p_pick + 0.06) gen_symm_op(r, p, g);
        else {
            if (g.spread && r.chance(0.3)) { double far = r.chance(0.3) ? 700 : 260; DabGen f = dg; f.area = far; p.add("dab", dab_args(gen_dab(r, f))); }
            else p.add("dab", dab_args(gen_dab(r, dg)));
        }
    }
    p.add("end", {1.0});
}
static inline StoreCfg store_cfg(const Plan &p) { StoreCfg c; c.mode = p.ci("mode"); c.init = p.ci("init"); c.seed = (u64)p.c("iseed", 1); c.threadsafe = p.ci("threadsafe") != 0; return c; }
static inline void gen_store(Rng &r, Plan &p) { p.cfg["mode"] = r.range(0, 1); p.cfg["init"] = r.pick(std::vector<int>{0, 0, 1, 2, 3, 3, 5, 5}); p.cfg["iseed"] = r.range(1, 1 << 20); }
static inline bool nodraw(const Dab &d) { return d.radius < 0.1f || !(d.hardness > 0) || d.softness >= 1 || !(d.opaque > 0); }
static inline u64 store_hash(Store &st) { Hash h; for (auto &t : st.tiles) { h.add((u64)(u32)t.first.first << 32 | (u32)t.first.second); h.bytes(t.second.px.data(), t.second.px.size() * 2); } return h.h; }
