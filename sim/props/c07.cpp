// C07: everything allocated is released exactly once, at any time.
#include "canvas.h"
#include <glib-object.h>
extern "C" { GType mypaint_brush_get_type(void); GType mypaint_surface_get_type(void); GType mypaint_fixed_tiled_surface_get_type(void); GType mypaint_rectangle_get_type(void); }
static void gen_doc(Rng &r, std::string &s) { s = "{\"version\":3,\"settings\":{"; int n = r.range(0, 5); for (int i = 0; i < n; i++) { char b[200]; snprintf(b, sizeof b, "%s\"%s\":{\"base_value\":%g,\"inputs\":{\"pressure\":[[0,0],[%g,%g]]}}", i ? "," : "", SET_NAME(r.range(0, MYPAINT_BRUSH_SETTINGS_COUNT - 1)), r.uni(0, 1), r.uni(0.1, 1), r.uni(0, 1)); s += b; } s += "}}"; if (r.chance(0.3)) s.resize(r.range(0, (int)s.size())); if (r.chance(0.1)) s = "null"; }
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["init"] = 0; p.cfg["threadsafe"] = r.chance(0.2); if (p.cfg["threadsafe"]) gen_sched(r, p, 4, 0.05); p.cfg["p_fail"] = r.chance(0.25) ? f32(r.uni(0.05, 0.4)) : 0; p.cfg["fseed"] = r.range(1, 1 << 30);
    DabGen g; g.area = r.pick(std::vector<double>{8, 40}); g.rmax = 12; int n = r.range(3, tier ? 60 : 25); EvState es; EvGen eg; eg.area = 40;
    if (r.chance(0.3)) { // steady state: the same work over and over must not grow
        p.cfg["cycle"] = r.range(3, 6); CanvasGen cg; cg.nmax = 12; cg.dab = g; cg.maxlines = 50; gen_canvas(r, p, cg); int k = r.range(0, 10); BrushGen b; b.rlog_max = 2.5; if (k) gen_brush(r, p, b); for (int i = 0; i < k; i++) p.add("ev", ev_args(gen_ev(r, es, eg))); if (r.chance(0.5)) { std::string d; gen_doc(r, d); p.add("load", {0}, d); } p.add("end"); return; }
    for (int i = 0; i < n; i++) {
        int o = r.range(0, 3); double u = r.u();
        if (u < 0.12) p.add("new", {(double)o, (double)r.range(0, 2), (double)r.pick(std::vector<int>{0, 1, 4, 256}), (double)r.range(1, 150), (double)r.range(1, 150)});
        else if (u < 0.2) p.add("ref", {(double)o, (double)r.chance(0.3)}); else if (u < 0.34) p.add("unref", {(double)o, (double)r.chance(0.3)}); else if (u < 0.36) p.add("rect", {(double)o, (double)r.range(-50, 50), (double)r.range(1, 50)});
        else if (u < 0.52) { std::vector<double> a = dab_args(gen_dab(r, g)); a.insert(a.begin(), o); p.add("dab", a); }
        else if (u < 0.58) p.add("begin", {(double)o}); else if (u < 0.64) p.add("end", {(double)o}); else if (u < 0.7) p.add("pick", {(double)o, f32(r.uni(-20, 20)), f32(r.uni(-20, 20)), f32(r.uni(1, 20))});
        else if (u < 0.76) p.add("symm", {(double)o, (double)r.range(0, 4), (double)r.range(0, 80)}); else if (u < 0.82) { std::string d; gen_doc(r, d); p.add("load", {(double)o}, d); }
        else { std::vector<double> a = ev_args(gen_ev(r, es, eg)); a.insert(a.begin(), {(double)o, (double)r.range(0, 3)}); p.add("stroke", a); }
    }
    p.cfg["order"] = r.range(1, 1 << 20);
}
struct Obj { int kind = -1; SimSurface *s = 0; MyPaintBrush *b = 0; MyPaintFixedTiledSurface *f = 0; int refs = 0; bool open = false; };
static GType boxed_type(Obj &o) { return o.kind == 1 ? mypaint_brush_get_type() : o.kind == 2 ? mypaint_fixed_tiled_surface_get_type() : mypaint_surface_get_type(); }
static void drop(Obj &o, bool boxed = false) { // one reference
    if (o.refs <= 0) return; o.refs--; sim_note(o.kind == 0 ? "surface_unref" : o.kind == 1 ? "brush_unref" : "fixed surface unref");
    if (o.kind == 0) { bool dead = o.refs == 0; if (!dead) { InLib l; if (boxed) g_boxed_free(boxed_type(o), IF(o.s)); else mypaint_surface_unref(IF(o.s)); } else surf_unref(o.s); CHECK(dead || !o.s->dead, "destroyed-early", "surface destroyed while %d references are left", o.refs); }
    else if (o.kind == 1) { InLib l; if (boxed) g_boxed_free(boxed_type(o), o.b); else mypaint_brush_unref(o.b); } else { InLib l; if (boxed) g_boxed_free(boxed_type(o), mypaint_fixed_tiled_surface_interface(o.f)); else mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(o.f)); }
    if (!o.refs) o = Obj();
}
static MyPaintSurface *sf(Obj &o) { return o.kind == 0 ? IF(o.s) : o.kind == 2 ? LIB(mypaint_fixed_tiled_surface_interface(o.f)) : 0; }
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); c.p_fail = p.c("p_fail"); c.fail_seed = (u64)p.c("fseed");
    { MyPaintBrush *b = brush_new(1); apply_brush_op(b, Op{"defaults"}); std::string d = "{\"version\":3,\"settings\":{\"hue\":1}}"; { InLib l; mypaint_brush_from_string(b, d.c_str()); mypaint_brush_unref(b); }   mypaint_brush_get_type(); mypaint_surface_get_type(); mypaint_fixed_tiled_surface_get_type(); mypaint_rectangle_get_type(); } // one-time initialisation
    u64 live0 = al_live_blocks(), bytes0 = al_live_bytes();
    if (p.ci("cycle")) {
        c.p_fail = 0; SimSurface *s = surf_new(c); u64 surf0 = al_live_blocks() - live0; MyPaintBrush *b = brush_new(4); u64 brushb = al_live_blocks() - live0 - surf0; auto done = [&]() { L_end(IF(s)); u64 k = al_live_blocks() - live0 - brushb; CHECK(k <= surf0 + 3, "held-after-transaction", "%llu blocks are held for the surface after a transaction, %llu after its creation: %s", (unsigned long long)k, (unsigned long long)surf0, al_describe_live(6).c_str()); }; u64 prev = 0, prevb = 0; int n = std::max(3, std::min(8, p.ci("cycle")));
        for (int it = 0; it < n; it++) {
            bool open = false;
            for (auto &o : p.ops) {
                if (o.k == "begin") { if (!open) L_begin(IF(s)); open = true; } else if (o.k == "end") { if (open) done(); open = false; } else if (o.k == "dab") { if (!open) { L_begin(IF(s)); open = true; } L_draw(IF(s), dab_from(o)); }
                else if (o.k == "pick") L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); else if (o.k == "symm") L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5));
                else if (o.k == "ev") { if (!open) { L_begin(IF(s)); open = true; } L_stroke(b, IF(s), ev_from(o)); } else { u64 was = al_live_blocks(); if (o.k == "load") { sim_note("from_string"); InLib l; mypaint_brush_from_string(b, o.s.c_str()); } else apply_brush_op(b, o); brushb += al_live_blocks() - was; }
            }
            if (open) done(); { InLib l; mypaint_brush_reset(b); }
            if (it >= 2 && c.p_fail == 0) CHECK(al_live_blocks() == prev && al_live_bytes() == prevb, "growth", "memory held after repetition %d of the same work: %llu blocks %llu bytes, after the one before: %llu blocks %llu bytes", it + 1, (unsigned long long)al_live_blocks(), (unsigned long long)al_live_bytes(), (unsigned long long)prev, (unsigned long long)prevb);
            prev = al_live_blocks(); prevb = al_live_bytes(); sim_hash(prevb);
        }
        sim_count("probe_cycles", n); sim_nontrivial(); surf_unref(s); { InLib l; mypaint_brush_unref(b); }
    } else {
        Obj ob[4]; int dx = 0; bool used = false;
        for (auto &o : p.ops) {
            Obj &x = ob[std::max(0, std::min(3, o.iarg(0)))];
            if (o.k == "new") { while (x.refs) drop(x); x.kind = std::max(0, std::min(2, o.iarg(1))); x.refs = 1; if (x.kind == 0) x.s = surf_new(c); else if (x.kind == 1) { x.b = brush_new(std::max(0, std::min(256, o.iarg(2)))); apply_brush_op(x.b, Op{"defaults"}); } else { sim_note("fixed_new"); x.f = LIB(mypaint_fixed_tiled_surface_new(std::max(1, std::min(300, o.iarg(3, 1))), std::max(1, std::min(300, o.iarg(4, 1))))); } continue; }
            if (!x.refs) continue; MyPaintSurface *m = sf(x);
            if (o.k == "ref") { if (x.refs < 6) { x.refs++; void *self = x.kind == 1 ? (void *)x.b : (void *)m; if (o.iarg(1)) { void *c; { InLib l; c = g_boxed_copy(boxed_type(x), self); } sim_count("probe_boxed_copies"); CHECK(c == self, "boxed-copy", "a copy through the registered type is %p, the object is %p", c, self); } else { InLib l; if (x.kind == 1) mypaint_brush_ref(x.b); else mypaint_surface_ref(m); } } } else if (o.k == "unref") drop(x, o.iarg(1));
            else if (o.k == "rect") { MyPaintRectangle q{o.iarg(1), -o.iarg(1), o.iarg(2), 3}, *c; { InLib l; c = (MyPaintRectangle *)g_boxed_copy(mypaint_rectangle_get_type(), &q); } CHECK(c && !memcmp(c, &q, sizeof q), "boxed-copy", "a rectangle copied through the registered type differs"); InLib l; g_boxed_free(mypaint_rectangle_get_type(), c); }
            else if (o.k == "begin" && m) { L_begin(m); x.open = true; } else if (o.k == "end" && m) { L_end(m); x.open = false; } else if (o.k == "dab" && m) { L_draw(m, dab_from(o, 1)); used = true; } else if (o.k == "pick" && m) L_pick(m, (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), -1);
            else if (o.k == "symm" && x.kind == 0) L_symm(x.s, true, 3, 4, 30, o.iarg(1), o.iarg(2)); else if (o.k == "load" && x.b) { sim_note("from_string"); InLib l; mypaint_brush_from_string(x.b, o.s.empty() || o.s == "null" ? 0 : o.s.c_str()); used = true; }
            else if (o.k == "stroke" && x.b) { Obj &t = ob[std::max(0, std::min(3, o.iarg(1)))]; if (sf(t)) { L_stroke(x.b, sf(t), ev_from(o, 2)); used = true; } }
            for (auto &z : ob) if (z.refs && z.b) { dx = LIB(mypaint_brush_get_state(z.b, MYPAINT_BRUSH_STATE_X)) > 0; } (void)dx;
        }
        if (used) sim_nontrivial(); u64 k = (u64)p.c("order", 1); u64 st = 0; for (auto &z : ob) { st = st * 7 + (z.kind + 1) * 2 + z.open; sim_count("probe_torn_down_mid_transaction", z.open); } sim_state(mix64(st * 1000 + std::min<u64>(999, al_live_blocks() - live0)));
        for (int pass = 0; pass < 12; pass++) { k = mix64(k); drop(ob[k & 3]); } for (auto &z : ob) while (z.refs) drop(z);
    }
    al_check_heap("end"); CHECK(al_live_blocks() == live0 && al_live_bytes() == bytes0, "leak", "%lld blocks (%lld bytes) still allocated after the last reference was dropped: %s", (long long)(al_live_blocks() - live0), (long long)(al_live_bytes() - bytes0), al_describe_live(6).c_str());
}
static RegProp reg({"C07", "ra", gen, exec});
