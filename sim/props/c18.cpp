// C18: the GEGL surface stores its canvas in GEGL buffers. Built only in variant g: the real gegl/mypaint-gegl-surface.c
// against the real GEGL library (one thread of its own; calls into it are atomic steps of the simulation).
#include "canvas.h"
#include "rt.h"
#include <fcntl.h>
#include <unistd.h>
extern "C" {
#include "mypaint-gegl-surface.h"
GType mypaint_gegl_tiled_surface_get_type(void);
}
static std::set<GeglBufferIterator *> its; // iterators under way
extern "C" {
void *sim_malloc(size_t);
// What GEGL does not synchronise itself: the extent of a buffer (written by set_extent, read when access to a region begins).
int sim_gegl_buffer_set_extent(GeglBuffer *b, const GeglRectangle *r) { rt_hot(); rt_access(b, 8, true); sim_count("probe_extent_changes"); return gegl_buffer_set_extent(b, r); }
GeglBufferIterator *sim_gegl_buffer_iterator_new(GeglBuffer *b, const GeglRectangle *r, int level, const Babl *f, int flags, int abyss, int slots) { rt_hot(); rt_access(b, 8, false); GeglBufferIterator *i = gegl_buffer_iterator_new(b, r, level, f, (GeglAccessMode)flags, (GeglAbyssPolicy)abyss, slots); its.insert(i); return i; }
int sim_gegl_buffer_iterator_next(GeglBufferIterator *i) { rt_hot(); if (!its.count(i)) sim_fail("gegl-iterator", "an iterator that has ended was advanced"); int r = gegl_buffer_iterator_next(i); if (!r) its.erase(i); return r; }
void sim_gegl_buffer_iterator_stop(GeglBufferIterator *i) { rt_hot(); if (!its.erase(i)) sim_fail("gegl-iterator", "an iterator that has ended was stopped"); gegl_buffer_iterator_stop(i); }
void *sim_gegl_malloc(size_t n) { void *p = gegl_malloc(n); rt_mem_fresh(p, n); al_fill(p, n); return p; }
}
static void on_log(const gchar *dom, GLogLevelFlags lv, const gchar *m, gpointer) { if (lv & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) sim_fail("critical", "%s: %s", dom ? dom : "?", m); }
void sim_setup() {
    setenv("GEGL_PATH", "/nonexistent", 1); setenv("BABL_PATH", "/nonexistent", 1); setenv("BABL_INHIBIT_CACHE", "1", 1); setenv("GEGL_USE_OPENCL", "no", 1); setenv("GEGL_THREADS", "1", 1); setenv("GEGL_SWAP", "ram", 1);
    int e = dup(2), n = open("/dev/null", O_WRONLY); fflush(stderr); dup2(n, 2); gegl_init(0, 0); fflush(stderr); dup2(e, 2); close(e); close(n); // babl says that it has no extensions
    g_log_set_default_handler(on_log, 0);
    GeglBuffer *b = gegl_buffer_new(GEGL_RECTANGLE(0, 0, 8, 8), babl_format("RGBA float")); g_object_unref(b);
}
static const int TSZ = MYPAINT_TILE_SIZE, W = 24; // window of W x W tiles around the origin
static const Babl *fmt() { static const Babl *f = babl_format_new(babl_model("R'aG'aB'aA"), babl_type("u15"), babl_component("R'a"), babl_component("G'a"), babl_component("B'a"), babl_component("A"), NULL); return f; }
static void gen(Rng &r, Plan &p, int tier) {
    gen_sched(r, p, 8, 0.7); CanvasGen g; g.nmin = 3; g.nmax = tier ? 40 : 16; g.dab.area = r.pick(std::vector<double>{15, 40, 90}); g.dab.rmax = r.pick(std::vector<double>{8, 24, 40}); g.maxlines = 6; g.symm = r.chance(0.4); g.symm_mid = true; g.p_pick = 0.25; g.pick_rmax = 40; gen_canvas(r, p, g);
    int k = r.range(0, 4); for (int i = 0; i < k; i++) { Op o{"buffer", {(double)r.pick(std::vector<int>{0, 1, 1, 1, 2, 3, 4, 5, 6}), (double)r.range(-60, 20), (double)r.range(-60, 20), (double)r.range(1, 150), (double)r.range(1, 150), (double)r.pick(std::vector<int>{8, 32, 64, 24}), (double)r.range(1, 1 << 30), (double)r.chance(0.5), (double)r.pick(std::vector<int>{8, 32, 64, 16}), (double)r.pick(std::vector<int>{0, 16, -16, -32, r.range(-40, 40)}), (double)r.pick(std::vector<int>{0, 16, -16, 48, r.range(-40, 40)})}}; p.ops.insert(p.ops.begin() + r.range(0, (int)p.ops.size()), o); }
    p.cfg["newfail"] = r.chance(0.05); p.cfg["keep"] = r.chance(0.3); p.cfg["boxed"] = r.chance(0.3);
}
struct Gs { MyPaintTiledSurface *t; MyPaintTileRequestStartFunction s0; MyPaintTileRequestEndFunction e0; std::set<TI> painted; int in = 0; u64 reqs = 0, ro = 0; int conc = 0; };
static Gs *G0;
static void gstart(MyPaintTiledSurface *t, MyPaintTileRequest *q) { rt_hot(); G0->in++; G0->reqs++; G0->conc = std::max(G0->conc, G0->in); if (q->readonly) G0->ro++; else G0->painted.insert({q->tx, q->ty}); G0->s0(t, q); CHECK(q->buffer, "gegl-no-tile", "the GEGL surface provided no memory for tile (%d,%d)", q->tx, q->ty); rt_hot(); }
static void gend(MyPaintTiledSurface *t, MyPaintTileRequest *q) { rt_hot(); G0->e0(t, q); G0->in--; rt_hot(); }
static int finalised; struct BufRec { GeglBuffer *b; bool gone = false; bool mine = false; int id; };
static std::vector<BufRec *> bufs;
static void on_gone(gpointer d, GObject *) { ((BufRec *)d)->gone = true; }
static BufRec *watch(GeglBuffer *b, bool mine) { for (auto r : bufs) if (r->b == b && !r->gone) { r->mine |= mine; return r; } BufRec *r = new BufRec; r->b = b; r->mine = mine; r->id = (int)bufs.size(); bufs.push_back(r); g_object_weak_ref(G_OBJECT(b), on_gone, r); return r; }
static void exec(const Plan &p) {
    sim_note("gegl surface new"); MyPaintGeglTiledSurface *g = 0;
    if (p.ci("newfail")) { al_inject(al_calls(), 1, 0, 1); g = LIB(mypaint_gegl_tiled_surface_new()); if (al_injected()) CHECK(!g, "gegl-new-oom", "a surface was created although its memory could not be allocated"); al_inject_off(); if (g) { InLib l; mypaint_surface_unref(mypaint_gegl_tiled_surface_interface(g)); } al_check_heap("failed creation"); if (!g) CHECK(al_live_blocks() == 0, "gegl-new-leak", "%s", al_describe_live(3).c_str()); }
    g = LIB(mypaint_gegl_tiled_surface_new()); CHECK(g, "harness", "no surface"); MyPaintSurface *gi = LIB(mypaint_gegl_tiled_surface_interface(g)); MyPaintTiledSurface *t = (MyPaintTiledSurface *)g;
    Gs gs; gs.t = t; gs.s0 = t->tile_request_start; gs.e0 = t->tile_request_end; G0 = &gs; t->tile_request_start = gstart; t->tile_request_end = gend; bool lib_ts = t->threadsafe_tile_requests;
    StoreCfg c; SimSurface *s = surf_new(c); Store &st = *s->st; bool open = false; int kind = 0; u64 picks = 0, swaps = 0, dabs = 0; double work = 0; GeglRectangle uext{0, 0, 0, 0};
    BufRec *curb = watch(LIB(mypaint_gegl_tiled_surface_get_buffer(g)), false);
    auto alive = [&](const char *when) { GeglBuffer *b = LIB(mypaint_gegl_tiled_surface_get_buffer(g)); CHECK(!curb->gone, "gegl-buffer-freed", "%s: the buffer in use was released", when); CHECK(b == curb->b, "gegl-buffer-changed", "%s: the surface uses another buffer than the one it was given", when);
        for (auto r : bufs) if (r != curb && !r->gone && !r->mine) sim_fail("gegl-buffer-leak", "%s: replaced buffer %d is still referenced", when, r->id); };
    std::vector<u16> win((size_t)W * W * TSZ * TSZ * 4); std::vector<u16> row;
    auto compare = [&](const char *when) {
        alive(when); CHECK(gs.in == 0, "gegl-unbalanced", "%s: %d tiles still out", when, gs.in); CHECK(its.empty(), "gegl-iterator-leak", "%s: %zu accesses to the buffer were not finished", when, its.size()); int o = -W / 2 * TSZ, n = W * TSZ; GeglRectangle rc{o, o, n, n}; gegl_buffer_get(curb->b, &rc, 1.0, fmt(), win.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE);
        const GeglRectangle *e = gegl_buffer_get_extent(curb->b);
        for (auto &q : gs.painted) CHECK(q.first * TSZ >= e->x && q.second * TSZ >= e->y && (q.first + 1) * TSZ <= e->x + e->width && (q.second + 1) * TSZ <= e->y + e->height, "gegl-extent-lost", "%s: tile (%d,%d) was painted but lies outside of the buffer's extent %d,%d %dx%d", when, q.first, q.second, e->x, e->y, e->width, e->height);
        if (uext.width) CHECK(uext.x >= e->x && uext.y >= e->y && uext.x + uext.width <= e->x + e->width && uext.y + uext.height <= e->y + e->height, "gegl-extent-shrunk", "%s: the buffer reached over %d,%d %dx%d when it was handed over, now only over %d,%d %dx%d", when, uext.x, uext.y, uext.width, uext.height, e->x, e->y, e->width, e->height);
        static const std::vector<u16> zero((size_t)TSZ * 4);
        for (int ty = -W / 2; ty < W / 2; ty++) for (int tx = -W / 2; tx < W / 2; tx++) { auto it = st.tiles.find({tx, ty}); for (int y = 0; y < TSZ; y++) { const u16 *a = &win[(((size_t)(ty + W / 2) * TSZ + y) * n + (tx + W / 2) * TSZ) * 4], *b = it == st.tiles.end() ? zero.data() : &it->second.px[(size_t)y * TSZ * 4]; if (memcmp(a, b, TSZ * 8)) for (int i = 0; i < TSZ * 4; i++) if (a[i] != b[i]) sim_fail("gegl-canvas-differs", "%s: pixel (%d,%d) channel %d of a kind %d buffer is %d, the dabs give %d", when, tx * TSZ + i / 4, ty * TSZ + y, i % 4, kind, a[i], b[i]); } }
        Hash h; h.bytes(win.data(), win.size() * 2); sim_hash(h.h); sim_state(mix64(kind * 1000 + e->width / TSZ * 31 + e->height / TSZ)); };
    auto end = [&]() { if (!open) return; open = false; MyPaintRectangle ra[8], rb[8]; memset(ra, 0, sizeof ra); memset(rb, 0, sizeof rb); MyPaintRectangles a{8, ra}, b{8, rb}; L_end(gi, &a); L_end(IF(s), &b); st.idle("end"); CHECK(a.num_rectangles == b.num_rectangles && !memcmp(ra, rb, sizeof ra), "gegl-damage-differs", "damage reported by the GEGL surface differs from a plain tiled surface"); compare("end of a transaction"); };
    auto begin = [&]() { if (!open) { L_begin(gi); L_begin(IF(s)); open = true; } };
    for (auto &o : p.ops) {
        if (o.k == "begin") begin(); else if (o.k == "end") end();
        else if (o.k == "symm") { int ty = std::max(0, std::min(4, o.iarg(4))), n = std::max(2, std::min(8, o.iarg(5))); L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), ty, n); InLib l; mypaint_tiled_surface_set_symmetry_state(t, o.iarg(0) != 0, (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), (MyPaintSymmetryType)ty, n); }
        else if (o.k == "dab") { Dab d = dab_from(o); if (!(d.radius < 100) || !(std::fabs(d.x) < 80) || !(std::fabs(d.y) < 80)) continue; work += (double)(d.radius + 17) * (d.radius + 17); if (work > 60000) continue; begin(); int a = L_draw(gi, d), b = L_draw(IF(s), d); CHECK(a == b, "gegl-draw-result", "draw_dab returned %d on a GEGL surface, %d on a plain one", a, b); dabs++; }
        else if (o.k == "pick") {
            float x = (float)std::max(-100.0, std::min(100.0, o.arg(0))), y = (float)std::max(-100.0, std::min(100.0, o.arg(1))), rad = (float)std::max(0.0, std::min(60.0, o.arg(2))); float pm = (float)o.arg(3); u64 seed = (u64)o.arg(4, 1); bool plain = pm < 0 || (pm == 0 && rad <= 2);
            rt_set_rand(0, seed); Col a = L_pick(gi, x, y, rad, pm); rt_set_rand(0, seed); Col b = L_pick(IF(s), x, y, rad, pm); picks++;
            if (plain) CHECK(std::fabs(a.r - b.r) < 2e-3 + 1e-4 / std::max(1e-3f, b.a) && std::fabs(a.g - b.g) < 2e-3 + 1e-4 / std::max(1e-3f, b.a) && std::fabs(a.b - b.b) < 2e-3 + 1e-4 / std::max(1e-3f, b.a) && std::fabs(a.a - b.a) < 1e-4, "gegl-pick-differs", "pickup at %g,%g radius %g gave %g,%g,%g,%g on a GEGL surface, %g,%g,%g,%g on a plain one", x, y, rad, a.r, a.g, a.b, a.a, b.r, b.g, b.b, b.a);
            if (!open) compare("a pickup"); }
        else if (o.k == "buffer") {
            int k = std::max(0, std::min(6, o.iarg(0))); if (k != 1 && k != 5 && open) end(); sim_count("probe_buffer_swaps"); swaps++; sim_note("set_buffer");
            if (k == 5) { InLib l; mypaint_gegl_tiled_surface_set_buffer(g, curb->b); alive("setting the same buffer"); continue; }
            if (k == 0) { { InLib l; mypaint_gegl_tiled_surface_set_buffer(g, NULL); } curb = watch(LIB(mypaint_gegl_tiled_surface_get_buffer(g)), false); st.tiles.clear(); uext.width = 0; }
            else {
                int x = std::max(-70, std::min(60, o.iarg(1))), y = std::max(-70, std::min(60, o.iarg(2))), w = std::max(1, std::min(150, o.iarg(3))), h = std::max(1, std::min(150, o.iarg(4))), tw = k == 2 ? std::max(8, std::min(64, o.iarg(5))) : TSZ; int th = k == 2 ? std::max(8, std::min(64, o.iarg(8, tw))) : TSZ; if (k == 2 && tw == TSZ && th == TSZ) tw = 32; u64 sd = (u64)o.arg(6, 1);
                const Babl *f = k == 3 ? babl_format("R'aG'aB'aA float") : fmt(); GeglBuffer *b = (GeglBuffer *)g_object_new(GEGL_TYPE_BUFFER, "x", x, "y", y, "width", w, "height", h, "format", f, "tile-width", tw, "tile-height", th, "shift-x", k == 6 ? o.iarg(9) % 100 : 0, "shift-y", k == 6 ? o.iarg(10) % 100 : 0, NULL);
                Store v; v.cfg.init = k == 4 ? 0 : sd % 3 ? 3 : 5; v.cfg.seed = sd; v.ts = TSZ; std::vector<u16> px((size_t)w * h * 4); for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) v.get(x + i, y + j, &px[((size_t)j * w + i) * 4]); GeglRectangle rc{x, y, w, h}; gegl_buffer_set(b, &rc, 0, fmt(), px.data(), GEGL_AUTO_ROWSTRIDE);
                st.tiles.clear(); for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) { int X = x + i, Y = y + j, tx = (int)std::floor(X / (double)TSZ), ty = (int)std::floor(Y / (double)TSZ); memcpy(&st.tile({tx, ty}).px[((size_t)(Y - ty * TSZ) * TSZ + X - tx * TSZ) * 4], &px[((size_t)j * w + i) * 4], 8); }
                BufRec *nb = watch(b, true); { InLib l; mypaint_gegl_tiled_surface_set_buffer(g, b); } curb = nb; uext = rc; if (o.iarg(7)) { nb->mine = false; g_object_unref(b); } }
            kind = k; gs.painted.clear(); CHECK(!t->threadsafe_tile_requests || k == 0 || k == 1 || k == 4 || (k == 6 && o.iarg(9) % 100 % TSZ == 0 && o.iarg(10) % 100 % TSZ == 0), "gegl-threadsafe", "a surface whose buffer needs conversion declares itself thread-safe"); if (!open) compare("setting a buffer"); else alive("setting a buffer");
        }
    }
    end(); compare("the history"); if (dabs) sim_nontrivial(); sim_count("probe_pickups", picks); sim_count("probe_dabs", dabs); sim_count("probe_readonly_requests", gs.ro); sim_count("probe_concurrent_requests", gs.conc > 1); if (lib_ts) sim_count("probe_threadsafe");
    if (p.ci("boxed")) { GType ty = mypaint_gegl_tiled_surface_get_type(); sim_note("boxed copy"); void *q; { InLib l; q = g_boxed_copy(ty, gi); } CHECK(q == gi, "boxed-copy", "a copy through the registered type is %p, the surface is %p", q, (void *)gi); InLib l; g_boxed_free(ty, q); sim_count("probe_boxed_copies"); }
    bool keep = p.ci("keep") && curb->mine; sim_note("unref"); { InLib l; mypaint_surface_unref(gi); }
    if (keep || curb->mine) { CHECK(!curb->gone, "gegl-buffer-freed", "the user's buffer was released together with the surface"); GeglRectangle rc{-50, -50, 100, 100}; gegl_buffer_get(curb->b, &rc, 1.0, fmt(), win.data(), GEGL_AUTO_ROWSTRIDE, GEGL_ABYSS_NONE); }
    for (auto r : bufs) if (r->mine && !r->gone) { g_object_unref(r->b); CHECK(r->gone, "gegl-buffer-leak", "buffer %d is still referenced after the surface and the user are done with it", r->id); }
    for (auto r : bufs) CHECK(r->gone, "gegl-buffer-leak", "buffer %d of the surface outlives it", r->id);
    surf_unref(s); al_check_heap("end"); CHECK(al_live_blocks() == 0, "gegl-leak", "%s", al_describe_live(3).c_str());
}
static RegProp reg({"C18", "g", gen, exec});
