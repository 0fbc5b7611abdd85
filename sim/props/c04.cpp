// C04: tile requests follow the protocol tile stores rely on (the checks are in the store itself).
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["mode"] = r.chance(0.8); p.cfg["threadsafe"] = r.chance(0.75); gen_sched(r, p, r.chance(0.15) ? 40 : 6, 0.5); p.cfg["p_fail"] = r.chance(0.4) ? f32(r.uni(0.02, 0.5)) : 0; p.cfg["fseed"] = r.range(1, 1 << 30);
    p.cfg["stroke"] = r.chance(0.35);
    if (p.cfg["stroke"]) {
        BrushGen b; b.random = r.chance(0.3); b.rlog_max = 2.9; gen_brush(r, p, b); EvGen e; e.area = 50; EvState s; int n = r.range(5, tier ? 60 : 20);
        for (int i = 0; i < n; i++) { if (i % 5 == 0) { if (i) p.add("end", {1.0}); p.add("begin"); } p.add("ev", ev_args(gen_ev(r, s, e))); } p.add("end", {1.0});
    } else { CanvasGen g; g.nmax = tier ? 30 : 12; g.dab.area = r.pick(std::vector<double>{10, 40, 80}); g.dab.rmax = r.pick(std::vector<double>{8, 24, 40}); g.maxlines = 8; g.symm_mid = true; g.p_pick = 0.3; g.pick_rmax = 50; g.spread = r.chance(0.2); gen_canvas(r, p, g); }
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); c.p_fail = p.c("p_fail"); c.fail_seed = (u64)p.c("fseed"); sim_note("mypaint_init"); LIB(mypaint_init());
    SimSurface *s = surf_new(c); Store &st = *s->st; bool open = false; MyPaintBrush *b = p.ci("stroke") ? brush_new(0) : 0;
    for (auto &o : p.ops) {
        if (o.k == "begin") { if (open) { L_end(IF(s)); st.idle("end_atomic"); } L_begin(IF(s)); st.idle("begin_atomic"); open = true; }
        else if (o.k == "end") { if (open) { L_end(IF(s)); st.idle("end_atomic"); open = false; } }
        else if (o.k == "dab") { if (!open) { L_begin(IF(s)); open = true; } L_draw(IF(s), dab_from(o)); st.idle("draw_dab"); }
        else if (o.k == "symm") L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5));
        else if (o.k == "pick") { rt_set_rand(0, (u64)o.arg(4, 1)); L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); st.idle("get_color"); }
        else if (o.k == "ev") { if (b) { if (!open) { L_begin(IF(s)); open = true; } L_stroke(b, IF(s), ev_from(o)); st.idle("stroke_to"); } }
        else if (b) apply_brush_op(b, o);
        sim_state(mix64(st.requests % 97 + 100 * st.inflight + 1000 * std::min<u64>(st.failed, 50)));
    }
    if (open) { L_end(IF(s)); st.idle("end_atomic"); }
    if (st.requests > 0) sim_nontrivial(); sim_count("probe_tile_requests", st.requests); sim_state(mix64(777 + st.max_conc)); sim_count("probe_more_than_16_processors", p.ci("threads") > 16 && st.max_conc > 1);
    if (b) { InLib l; mypaint_brush_unref(b); } surf_unref(s); al_check_heap("end");
}
static RegProp reg({"C04", "ra", gen, exec});
