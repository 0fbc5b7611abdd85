// C06: running out of memory never corrupts or kills.
#include "canvas.h"
static const char *GOODDOC = "{\"comment\":\"x\",\"group\":\"g\",\"parent_brush_name\":\"\",\"version\":3,\"settings\":{\"opaque\":{\"base_value\":0.8,\"inputs\":{\"pressure\":[[0,0],[0.4,0.2],[1,1]]}},\"radius_logarithmic\":{\"base_value\":1.5,\"inputs\":{}},\"smudge\":{\"base_value\":0.4,\"inputs\":{\"random\":[[0,0],[1,0.3]]}}}}";
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["threadsafe"] = r.chance(0.25); if (p.cfg["threadsafe"]) gen_sched(r, p, 4, 0.1);
    DabGen g; g.area = r.pick(std::vector<double>{8, 25, 60}); g.rmax = r.pick(std::vector<double>{5, 15}); bool spread = r.chance(0.5); int n = r.range(4, tier ? 40 : 18), inj = 0;
    auto maybe = [&](double pr) { if (r.chance(pr)) { int cnt = r.chance(0.6) ? 1 : r.chance(0.5) ? r.range(2, 6) : 1000000; int off = r.chance(0.4) ? 0 : r.chance(0.7) ? r.range(0, 6) : r.range(0, 60); p.add("inj", {(double)off, (double)cnt}); inj++; } };
    if (r.chance(0.3)) maybe(1); p.add("surf"); p.add("begin");
    for (int i = 0; i < n; i++) {
        double u = r.u();
        if (u < 0.5) { if (inj < 9) maybe(0.3); if (spread && r.chance(0.25)) { DabGen f = g; f.area = r.chance(0.4) ? 1300 : 300; f.rmax = 4; p.add("dab", dab_args(gen_dab(r, f))); } else p.add("dab", dab_args(gen_dab(r, g))); }
        else if (u < 0.62) { maybe(0.3); p.add("end"); maybe(0.3); p.add("begin"); }
        else if (u < 0.72) { maybe(0.3); p.add("pick", {f32(r.uni(-g.area, g.area)), f32(r.uni(-g.area, g.area)), f32(r.uni(0.5, 20)), r.chance(0.5) ? -1.0 : 0.5, 7}); }
        else if (u < 0.8) { maybe(0.85); p.add("newbrush", {(double)r.pick(std::vector<int>{0, 0, 1, 7, 256}), (double)r.range(1, 1 << 20)}); }
        else if (u < 0.86) { maybe(0.85); p.add("newfixed", {(double)r.range(1, 200), (double)r.range(1, 200)}); }
        else if (u < 0.92) { maybe(0.7); p.add("newsurf", {(double)r.range(1, 1 << 20), (double)r.range(0, 3)}); }
        else if (u < 0.95) { maybe(0.8); p.add("mapping", {(double)r.range(1, 18)}); }
        else { maybe(0.8); p.add("rect"); }
    }
    p.add("end"); for (int i = 0; i < 4; i++) p.add("dab", dab_args(gen_dab(r, g))); p.add("end");
}
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p), rc = c; rc.mode = 0; rc.threadsafe = false; rc.protocol = false; u64 live0 = al_live_blocks(); u64 injtot = 0;
    SimSurface *s = 0, *ref = surf_new(rc); struct PD { Dab d; bool drop; }; std::vector<PD> pend; std::map<TI, std::vector<u16>> known; bool open = false; u64 ioff = 0, icnt = 0; bool armed = false; u64 drops = 0, cmpd = 0; int ts = ref->st->ts;
    auto arm = [&]() { if (armed) { al_inject(al_calls() + ioff, icnt, 0, 0); } }; auto disarm = [&]() { al_inject_off(); armed = false; };
    u64 k0 = 0; auto fired = [&]() { bool f = al_injected() != k0; k0 = al_injected(); if (f) injtot++; return f; };
    auto apply = [&](const std::vector<u16> &px, TI t, const Dab &d) -> std::vector<u16> { ref->st->tiles.clear(); ref->st->tile(t).px = px; int th = rt_get_max_threads(); rt_set_threads(1); { InLib l; mypaint_surface_begin_atomic(IF(ref)); mypaint_surface_draw_dab(IF(ref), d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.ratio, d.angle, d.lock, d.colorize, d.posterize, d.posterize_num, d.paint); mypaint_surface_end_atomic(IF(ref), 0); } rt_set_threads(th); return ref->st->tile(t).px; };
    auto init_px = [&](TI t) { std::vector<u16> v(ts * ts * 4); for (int i = 0; i < ts * ts; i++) s->st->pixel(t.first * ts + i % ts, t.second * ts + i / ts, &v[i * 4]); return v; };
    auto reach = [&](const Dab &d, TI t) { double R = std::max(0.1f, d.radius) + 2; return d.x + R >= t.first * ts && d.x - R <= t.first * ts + ts && d.y + R >= t.second * ts && d.y - R <= t.second * ts + ts; };
    auto verify = [&](const char *when) { // after a transaction: every tile holds a subset of the dabs, complete where nothing failed
        Store &st = *s->st; st.idle(when); std::set<TI> all; for (auto &t : st.tiles) all.insert(t.first); for (auto &q : pend) { double R = std::max(0.1f, q.d.radius) + 1; if (R < 200) for (int y = (int)std::floor((q.d.y - R) / ts); y <= (int)std::floor((q.d.y + R) / ts); y++) for (int x = (int)std::floor((q.d.x - R) / ts); x <= (int)std::floor((q.d.x + R) / ts); x++) all.insert({x, y}); }
        for (auto &t : all) {
            auto it = st.tiles.find(t); std::vector<u16> now = it == st.tiles.end() ? init_px(t) : it->second.px; auto k = known.find(t); std::vector<std::vector<u16>> cand; cand.push_back(k == known.end() ? init_px(t) : k->second); bool many = false;
            for (auto &q : pend) { if (!reach(q.d, t)) continue; std::vector<std::vector<u16>> nc; for (auto &v : cand) { auto a = apply(v, t, q.d); if (q.drop && a != v) nc.push_back(v); nc.push_back(a); } std::sort(nc.begin(), nc.end()); nc.erase(std::unique(nc.begin(), nc.end()), nc.end()); if (nc.size() > 64) { many = true; break; } cand = nc; }
            if (!many) { cmpd++; bool ok = false; for (auto &v : cand) ok |= v == now; if (!ok) sim_fail(injtot ? "oom-tile-content" : "tile-content", "tile (%d,%d) after %s does not hold the dabs drawn (%zu pending, those whose call met a failed allocation may be missing)", t.first, t.second, when, pend.size()); }
            known[t] = now;
        } pend.clear(); };
    auto begin = [&]() { if (!open) { arm(); L_begin(IF(s)); disarm(); fired(); open = true; } };
    auto pdrop = [&]() { if (fired()) for (auto &q : pend) q.drop = true; };
    auto end = [&]() { if (!open) return; arm(); L_end(IF(s)); disarm(); pdrop(); open = false; verify("end_atomic"); };
    for (auto &o : p.ops) {
        if (o.k == "inj") { ioff = (u64)std::max(0.0, o.arg(0)); icnt = (u64)std::max(1.0, o.arg(1)); armed = true; continue; }
        if (o.k != "surf" && !s) { bool a = armed; armed = false; s = surf_new(c); armed = a; }
        if (o.k == "surf") { if (!s) { arm(); s = surf_new(c); disarm(); fired(); if (!LIB(s->parent.operation_queue)) { // a subclass would give up: destroy and try again
                    surf_unref(s); sim_count("probe_surface_without_queue"); s = surf_new(c); } } }
        else if (o.k == "begin") { end(); begin(); } else if (o.k == "end") end();
        else if (o.k == "dab") { bool a = armed; armed = false; begin(); armed = a; Dab d = dab_from(o); arm(); L_draw(IF(s), d); disarm(); bool f = fired(); drops += f; pend.push_back({d, f}); }
        else if (o.k == "pick") { arm(); Col k = L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); disarm(); pdrop(); s->st->idle("get_color"); CHECK(k.r >= 0 && k.r <= 1 && k.g >= 0 && k.g <= 1 && k.b >= 0 && k.b <= 1 && k.a >= 0 && k.a <= 1, "pick-invalid", "pickup returned %g,%g,%g,%g", k.r, k.g, k.b, k.a); }
        else if (o.k == "newbrush") {
            u64 l0 = al_live_blocks(); Rng rr((u64)o.arg(1, 1)); int bk = std::max(0, std::min(256, o.iarg(0))); arm(); MyPaintBrush *b = brush_new(bk); bool f; if (!b) { disarm(); f = fired(); CHECK(f, "spurious-null", "constructor returned no brush although no allocation failed"); CHECK(al_live_blocks() == l0, "oom-leak", "failed brush construction leaked %lld blocks: %s", (long long)(al_live_blocks() - l0), al_describe_live(4).c_str()); sim_count("probe_brush_null"); continue; }
            sim_note("brush calls under failing allocations"); Rng gr(rr.next()); EvState es; EvGen eg; RecSurface *rs = rec_new(0, 5);
            { InLib l; mypaint_brush_from_defaults(b); mypaint_brush_from_string(b, GOODDOC); mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_HARDNESS, MYPAINT_BRUSH_INPUT_SPEED1, 3); mypaint_brush_set_smudge_bucket_state(b, std::max(0, bk - 1), .1f, .2f, .3f, .4f, .5f, .6f, .7f, .8f, .9f); mypaint_brush_new_stroke(b); }
            for (int i = 0; i < 6; i++) L_stroke(b, IF(rs), gen_ev(gr, es, eg)); disarm(); fired();
            for (int i = 0; i < 6; i++) L_stroke(b, IF(rs), gen_ev(gr, es, eg)); { InLib l; mypaint_brush_ref(b); mypaint_brush_unref(b); mypaint_brush_unref(b); } rec_free(rs); CHECK(al_live_blocks() == l0, "oom-leak", "brush built under failing allocations leaked %lld blocks", (long long)(al_live_blocks() - l0)); }
        else if (o.k == "newfixed") {
            u64 l0 = al_live_blocks(); int w = std::max(1, std::min(300, o.iarg(0, 1))), h = std::max(1, std::min(300, o.iarg(1, 1))); sim_note("fixed_tiled_surface_new"); arm(); MyPaintFixedTiledSurface *x = LIB(mypaint_fixed_tiled_surface_new(w, h));
            if (!x) { disarm(); CHECK(fired(), "spurious-null", "constructor returned no surface although no allocation failed"); CHECK(al_live_blocks() == l0, "oom-leak", "failed surface construction leaked %lld blocks: %s", (long long)(al_live_blocks() - l0), al_describe_live(4).c_str()); sim_count("probe_fixed_null"); continue; }
            disarm(); fired(); MyPaintSurface *m = LIB(mypaint_fixed_tiled_surface_interface(x)); CHECK(LIB(mypaint_fixed_tiled_surface_get_width(x)) == w && LIB(mypaint_fixed_tiled_surface_get_height(x)) == h, "fixed-size", "size changed"); Rng gr(5); DabGen dg; L_begin(m); for (int i = 0; i < 3; i++) L_draw(m, gen_dab(gr, dg)); L_pick(m, 3, 3, 5, -1); L_end(m); { InLib l; mypaint_surface_unref(m); } CHECK(al_live_blocks() == l0, "oom-leak", "fixed surface leaked %lld blocks", (long long)(al_live_blocks() - l0)); }
        else if (o.k == "newsurf") {
            u64 l0 = al_live_blocks(); int when = std::max(0, std::min(3, o.iarg(1))), lines = 2; if (!when) arm(); SimSurface *x = surf_new(c); Rng gr((u64)o.arg(0, 1)); DabGen dg; dg.area = 20; dg.rmax = 10;
            // a growing number of symmetry lines: matrices and damage rectangles are reallocated several times, and any of these may fail
            for (int k = 0; k < 4; k++) { if (k && when == k) arm(); lines = k ? lines + gr.range(0, 40) : gr.range(2, 60); L_symm(x, true, 1, 2, 3, gr.chance(0.3) ? gr.range(0, 4) : gr.range(3, 4), lines); L_begin(IF(x)); for (int i = 0; i < 2; i++) L_draw(IF(x), gen_dab(gr, dg)); std::vector<MyPaintRectangle> rv(gr.range(1, 100)); MyPaintRectangles rr{(int)rv.size(), rv.data()}; L_end(IF(x), &rr); if (k || !gr.chance(0.5)) { disarm(); fired(); } } disarm(); fired(); L_begin(IF(x)); L_draw(IF(x), gen_dab(gr, dg)); L_pick(IF(x), 3, 3, 5, -1); L_end(IF(x)); surf_unref(x); CHECK(al_live_blocks() == l0, "oom-leak", "surface built and used under failing allocations leaked %lld blocks: %s", (long long)(al_live_blocks() - l0), al_describe_live(4).c_str()); }
        else if (o.k == "mapping") { u64 l0 = al_live_blocks(); sim_note("mapping_new"); arm(); MyPaintMapping *m = LIB(mypaint_mapping_new(std::max(1, std::min(18, o.iarg(0, 1))))); disarm(); bool f = fired(); if (!m) CHECK(f, "spurious-null", "no mapping although no allocation failed"); else { InLib l; mypaint_mapping_set_base_value(m, 2); mypaint_mapping_free(m); } CHECK(al_live_blocks() == l0, "oom-leak", "mapping leaked"); }
        else if (o.k == "rect") { u64 l0 = al_live_blocks(); sim_note("rectangle_copy"); MyPaintRectangle q{1, 2, 3, 4}; arm(); MyPaintRectangle *m = LIB(mypaint_rectangle_copy(&q)); disarm(); bool f = fired(); if (!m) CHECK(f, "spurious-null", "no copy although no allocation failed"); else { CHECK(!memcmp(m, &q, sizeof q), "rect-copy", "copy differs"); extern void sim_free_cpp(void *); sim_free_cpp(m); } CHECK(al_live_blocks() == l0, "oom-leak", "rectangle copy leaked"); }
        sim_state(mix64(al_calls() * 7 + injtot));
    }
    if (!s) s = surf_new(c); end(); if (injtot) sim_nontrivial(); sim_count("probe_dabs_met_failure", drops); sim_count("probe_tiles_compared", cmpd); sim_hash(store_hash(*s->st)); surf_unref(s); surf_unref(ref); al_check_heap("end");
    CHECK(al_live_blocks() == live0, "leak", "%lld blocks still allocated after everything was destroyed: %s", (long long)(al_live_blocks() - live0), al_describe_live(6).c_str());
}
static RegProp reg({"C06", "ra", gen, exec});
