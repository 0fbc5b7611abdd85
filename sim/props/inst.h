// A complete painting instance (brush + surface), driven by ops; used by C08 and C09.
#pragma once
#include "brush.h"
#include "../rt.h"
#include <glib-object.h>
extern "C" { GType mypaint_brush_get_type(void); GType mypaint_surface_get_type(void); GType mypaint_fixed_tiled_surface_get_type(void); GType mypaint_rectangle_get_type(void); }
static inline void gen_work(Rng &r, Plan &p, const char *pre, int nmin, int nmax, bool fixed_ok, bool par = false) {
    auto K = [&](const char *k) { return std::string(pre) + k; };
    bool fixed = fixed_ok && !par && r.chance(0.3), bare = !par && r.chance(0.06); p.add(K("new").c_str(), {(double)(fixed ? 1 : 0), (double)r.range(0, 1), (double)r.pick(std::vector<int>{0, 0, 2, 3, 5}), (double)r.range(1, 1 << 20), (double)r.range(10, 200), (double)r.range(10, 200), (double)r.pick(std::vector<int>{0, 1, 5}), (double)r.range(1, 1 << 20), (double)par, (double)bare});
    BrushGen g; g.smudge = !par; g.random = r.chance(0.6); g.noise = g.random; g.buckets = r.chance(0.4); g.rlog_max = 2.6; if (bare) { // a brush as created, with curves only: everything derived from base values is as the constructor left it
        p.add(K("map").c_str(), {(double)SET(OPAQUE), (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0.2, 1, 1}); p.add(K("map").c_str(), {(double)SET(OPAQUE_MULTIPLY), (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0.4, 1, 1}); p.add(K("map").c_str(), {(double)SET(DABS_PER_ACTUAL_RADIUS), (double)MYPAINT_BRUSH_INPUT_PRESSURE, 0, 2, 1, 2}); p.add(K("map").c_str(), {(double)SET(HARDNESS), (double)r.pick(std::vector<int>{MYPAINT_BRUSH_INPUT_SPEED1, MYPAINT_BRUSH_INPUT_SPEED2}), -5, 0.2, 4, 1}); p.add(K("map").c_str(), {(double)SET(COLOR_V), (double)r.pick(std::vector<int>{MYPAINT_BRUSH_INPUT_SPEED1, MYPAINT_BRUSH_INPUT_SPEED2}), -5, 0, 4, 1}); }
    else gen_brush(r, p, g, pre); if (!par && !bare && r.chance(0.6)) { p.add(K("set").c_str(), {(double)SET(SMUDGE), f32(r.uni(0.2, 1))}); p.add(K("set").c_str(), {(double)SET(PAINT_MODE), f32(r.chance(0.3) ? 0 : r.u())}); }
    EvState es; EvGen eg; eg.area = r.pick(std::vector<double>{20, 60}); if (fixed) eg.cx = eg.cy = eg.area * 0.7; DabGen dg; dg.area = eg.area; dg.cx = eg.cx; dg.cy = eg.cy; int n = r.range(nmin, nmax);
    for (int i = 0; i < n; i++) {
        double u = r.u(); if (u < 0.6) p.add(K("ev").c_str(), ev_args(gen_ev(r, es, eg))); else if (u < 0.75) p.add(K("dab").c_str(), dab_args(gen_dab(r, dg)));
        else if (u < 0.83 && !par) p.add(K("pick").c_str(), {f32(eg.cx + r.uni(-eg.area, eg.area)), f32(eg.cy + r.uni(-eg.area, eg.area)), f32(r.uni(0.5, 25)), f32(r.chance(0.3) ? -1 : r.u())}); else if (u < 0.9) p.add(K("commit").c_str()); else if (u < 0.95) p.add(K("symm").c_str(), {(double)r.chance(0.7), f32(r.uni(-20, 20)), f32(r.uni(-20, 20)), f32(r.uni(0, 360)), (double)r.range(0, 4), (double)r.range(2, 7)}); else if (u < 0.97) p.add(K("reset").c_str()); else p.add(K("newstroke").c_str());
        if (r.chance(0.06)) p.add(K("query").c_str(), {(double)r.range(0, 100), (double)r.range(0, 100)});
        if (r.chance(0.04)) p.add(K("type").c_str(), {(double)r.range(0, 3)});
        if (!par && r.chance(0.03)) { char d[300]; snprintf(d, sizeof d, "{\"version\":3,\"settings\":{\"%s\":{\"base_value\":%.4g,\"inputs\":{}},\"opaque\":{\"base_value\":%.3g,\"inputs\":{\"pressure\":[[0,0],[%.3g,%.3g]]}}}%s", r.pick(std::vector<const char *>{"hardness", "color_h", "dabs_per_second", "smudge", "no_such_setting"}), r.u(), r.uni(0.3, 1), r.uni(0.3, 1), r.uni(0, 1), r.chance(0.8) ? "}" : ""); p.add(K("doc").c_str(), {}, d); }
    }
}
// keeps the simulated work within bounds: a surface that ignores dabs and pickups once an amount of pixels was touched
struct Bound { MyPaintSurfaceDrawDabFunction d; MyPaintSurfaceGetColorFunction p; double left; u64 large = 0; };
inline std::map<MyPaintSurface *, Bound> &bounds() { static std::map<MyPaintSurface *, Bound> m; return m; }
struct OutL { int s; OutL() : s(rt_inlib()) { rt_inlib() = 0; } ~OutL() { rt_inlib() = s; } };
inline int b_draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float ratio, float angle, float lock, float colorize, float posterize, float pn, float paint) {
    Bound *k; { OutL o; k = &bounds()[s]; double cost = 300 + radius * radius * 4; if (!(radius < 100) || !(std::fabs(x) < 1500) || !(std::fabs(y) < 1500) || k->left < cost) return 0; k->left -= cost; }
    return k->d(s, x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, pn, paint); }
inline void b_pick(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    Bound *k; { OutL o; k = &bounds()[s]; double cost = 300 + radius * radius * 4; if (!(radius < 100) || !(std::fabs(x) < 1500) || !(std::fabs(y) < 1500) || k->left < cost) { *r = 0.5f; *g = 0.25f; *b = 0.125f; *a = 1; return; } k->left -= cost; k->large += radius > 2 && paint >= 0; }
    k->p(s, x, y, radius, r, g, b, a, paint); }
inline void bound(MyPaintSurface *s, double work) { bounds()[s] = {s->draw_dab, s->get_color, work, 0}; s->draw_dab = b_draw; s->get_color = b_pick; }
struct Inst {
    MyPaintBrush *b = 0; SimSurface *s = 0; MyPaintFixedTiledSurface *f = 0; MyPaintSurface *m = 0; bool open = false; Hash h; u64 n = 0, drew = 0; int buckets = 0; std::vector<u64> trace; int fw = 0, fh = 0; bool resync = false; u64 rs = 0; Rng garble{1}; bool garbled = false; u64 large = 0; /* pickups that depend on rand() */
    void ready() { if (m) return; make(Op{"new"}); }
    void make(const Op &o) {
        if (m) return; buckets = std::max(0, std::min(64, o.iarg(6))); b = brush_new(buckets); if (o.iarg(9)) sim_count("probe_bare_brush"); else apply_brush_op(b, Op{"defaults"});
        if (o.iarg(0)) { fw = std::max(1, std::min(300, o.iarg(4, 1))); fh = std::max(1, std::min(300, o.iarg(5, 1))); sim_note("fixed_new"); f = LIB(mypaint_fixed_tiled_surface_new(fw, fh)); m = LIB(mypaint_fixed_tiled_surface_interface(f)); }
        else { StoreCfg c; c.mode = o.iarg(1); c.init = o.iarg(2); c.seed = (u64)o.arg(3, 1); c.threadsafe = o.iarg(8); s = surf_new(c); m = IF(s); }
        bound(m, rt_is_race_variant() ? 60000 : 200000);
    }
    void note(double d) { h.addf(d); n++; trace.push_back(h.h); }
    void begin() { if (!open) { L_begin(m); open = true; } }
    void commit() { if (!open) return; MyPaintRectangle r[8]; MyPaintRectangles rr{8, r}; L_end(m, &rr); open = false; for (int i = 0; i < rr.num_rectangles; i++) { note(r[i].x); note(r[i].y); note(r[i].width); note(r[i].height); } }
    void op(const Op &o, const char *k) {
        if (!strcmp(k, "new")) { make(o); return; } ready(); if (resync) rt_set_rand(0, mix64(rs + n * 0)), rs++; if (garbled) { pollute_stack(garble.next()); }
        if (!strcmp(k, "ev")) { Ev e = ev_from(o); if (!(std::fabs(e.x) < 1e5f) || !(std::fabs(e.y) < 1e5f)) return; begin(); int v = L_stroke(b, m, e); drew++; note(v); for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) h.addf(B_st(b, (MyPaintBrushState)i)); note(LIB(mypaint_brush_get_total_stroke_painting_time(b))); }
        else if (!strcmp(k, "dab")) { begin(); note(L_draw(m, dab_from(o)) != 0); drew++; } else if (!strcmp(k, "pick")) { Col c = L_pick(m, (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); note(c.r); note(c.g); note(c.b); note(c.a); }
        else if (!strcmp(k, "commit")) commit(); else if (!strcmp(k, "symm")) { if (s) L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5)); }
        else if (!strcmp(k, "reset")) { InLib l; mypaint_brush_reset(b); } else if (!strcmp(k, "newstroke")) { InLib l; mypaint_brush_new_stroke(b); }
        else if (!strcmp(k, "doc")) { int v; { InLib l; v = mypaint_brush_from_string(b, o.s.c_str()); } note(v); }
        else if (!strcmp(k, "query")) { int id = std::max(0, o.iarg(0)) % MYPAINT_BRUSH_SETTINGS_COUNT, in = std::max(0, o.iarg(1)) % MYPAINT_BRUSH_INPUTS_COUNT, st = std::max(0, o.iarg(1)) % MYPAINT_BRUSH_STATES_COUNT; InLib l; const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info((MyPaintBrushSetting)id); note(mypaint_brush_setting_from_cname(i->cname)); note(mypaint_brush_input_from_cname(mypaint_brush_input_info((MyPaintBrushInput)in)->cname)); note(mypaint_brush_get_state(b, (MyPaintBrushState)st)); note(i->def); note(strlen(mypaint_brush_setting_info_get_name(i))); note(mypaint_brush_get_base_value(b, (MyPaintBrushSetting)id)); note(mypaint_brush_get_inputs_used_n(b, (MyPaintBrushSetting)id)); note(mypaint_brush_is_constant(b, (MyPaintBrushSetting)id)); }
        else if (!strcmp(k, "type")) { GType t = o.iarg(0) == 0 ? mypaint_brush_get_type() : o.iarg(0) == 1 ? mypaint_surface_get_type() : o.iarg(0) == 2 ? mypaint_fixed_tiled_surface_get_type() : mypaint_rectangle_get_type(); note(t != 0); note(strlen(t ? g_type_name(t) : "")); if (o.iarg(0) == 3) return; void *self = o.iarg(0) ? (void *)m : (void *)b; if (o.iarg(0) == 2 && !f) return; void *c = g_boxed_copy(t, self); note(c == self); if (c == self) { InLib l; g_boxed_free(t, c); } }
        else { Op q = o; q.k = k; apply_brush_op(b, q); }
    }
    u64 canvas() {
        if (!m) return 0; commit(); Hash c; if (s) { c.add(store_hash(*s->st)); }
        else { MyPaintTiledSurface *t = (MyPaintTiledSurface *)f; int ts = t->tile_size; for (int y = 0; y * ts < fh; y++) for (int x = 0; x * ts < fw; x++) { MyPaintTileRequest q; InLib l; mypaint_tile_request_init(&q, 0, x, y, 1); mypaint_tiled_surface_tile_request_start(t, &q); if (q.buffer) c.bytes(q.buffer, ts * ts * 8); mypaint_tiled_surface_tile_request_end(t, &q); } }
        float v[9]; for (int i = 0; i < buckets; i++) { B_bucket(b, i, v); for (float x : v) c.addf(x); } return c.h;
    }
    void drop() { if (!m) return; commit(); large += bounds()[m].large; bounds().erase(m); if (s) surf_unref(s); else { InLib l; mypaint_surface_unref(m); } B_unref(b); m = 0; }
};
