#include "world.h"
#include "rt.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
#define POISON(p, n) do { if (__asan_poison_memory_region) __asan_poison_memory_region(p, n); } while (0)
#define UNPOISON(p, n) do { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); } while (0)
#endif
float f32(double d) { return (float)d; }

// ---------------------------------------------------------------- dabs
std::vector<double> dab_args(const Dab &d) { const float *f = (const float *)&d; return std::vector<double>(f, f + 17); }
Dab dab_from(const Op &o, size_t off) { Dab d; float *f = (float *)&d; for (int i = 0; i < 17; i++) f[i] = (float)o.arg(off + i); return d; }
std::string dab_str(const Dab &d) { char b[400]; snprintf(b, sizeof b, "dab(x=%.9g y=%.9g radius=%.9g rgb=%.4g,%.4g,%.4g opaque=%.4g hard=%.4g soft=%.4g a=%.4g ratio=%.4g angle=%.6g lock=%.3g colorize=%.3g posterize=%.3g/%.3g paint=%.3g)", d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.ratio, d.angle, d.lock, d.colorize, d.posterize, d.posterize_num, d.paint); return b; }
bool dab_eq(const Dab &a, const Dab &b) { const float *x = (const float *)&a, *y = (const float *)&b; for (int i = 0; i < 17; i++) if (!(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return false; return true; }
void hash_dab(const Dab &d) { Hash h; const float *f = (const float *)&d; for (int i = 0; i < 17; i++) h.addf(f[i] == 0 ? 0.0 : f[i]); sim_hash(h.h); }
Dab gen_dab(Rng &r, const DabGen &g) {
    Dab d; auto q = [&](double v, double s) { return s > 0 ? std::floor(v / s + 0.5) * s : v; };
    d.x = (float)q(g.cx + r.uni(-g.area, g.area), g.quant); d.y = (float)q(g.cy + r.uni(-g.area, g.area), g.quant);
    double t = r.u(); d.radius = (float)(g.rmin * std::pow(g.rmax / g.rmin, t)); if (g.quant > 0) d.radius = (float)std::max(g.quant, q(d.radius, g.quant));
    d.r = (float)r.u(); d.g = (float)r.u(); d.b = (float)r.u(); if (r.chance(0.15)) d.r = r.range(0, 1); if (r.chance(0.15)) d.g = r.range(0, 1); if (r.chance(0.15)) d.b = r.range(0, 1); if (r.chance(0.12)) d.g = d.b = d.r;
    d.opaque = r.chance(0.3) ? 1.f : (float)r.uni(0.02, 1); d.hardness = r.chance(0.3) ? 1.f : (float)r.uni(0.05, 1); d.softness = r.chance(0.8) ? 0.f : (float)r.uni(0, 0.95);
    d.a = r.chance(0.6) ? 1.f : r.chance(0.4) ? 0.f : (float)r.u(); d.ratio = r.chance(0.5) ? 1.f : r.chance(0.3) ? (float)std::exp(r.uni(0, 3)) : (float)r.uni(1, 6); d.angle = (float)q(r.uni(-180, 360), 0.25);
    d.lock = d.colorize = d.posterize = 0; d.posterize_num = 0.05f; d.paint = 0;
    if (g.blends) { if (r.chance(0.2)) d.lock = r.chance(0.5) ? 1.f : (float)r.u(); if (r.chance(0.15)) d.colorize = r.chance(0.5) ? 1.f : (float)r.u(); if (r.chance(0.12)) { d.posterize = r.chance(0.5) ? 1.f : (float)r.u(); d.posterize_num = (float)r.uni(0.01, 1.28); } }
    if (g.paint) d.paint = r.chance(0.5) ? 0.f : r.chance(0.6) ? 1.f : (float)r.u();
    if (g.weird) {
        if (r.chance(0.1)) d.radius = (float)r.uni(0.05, 0.5); if (r.chance(0.1)) d.opaque = (float)r.uni(-0.5, 2); if (r.chance(0.1)) d.hardness = (float)r.uni(-0.2, 1.5); if (r.chance(0.07)) d.softness = r.chance(0.5) ? 1.f : (float)r.uni(-1, 2);
        if (r.chance(0.1)) d.a = (float)r.uni(-1, 2); if (r.chance(0.1)) d.ratio = (float)r.uni(0, 30); if (r.chance(0.1)) d.r = (float)r.uni(-1, 2); if (r.chance(0.1)) d.lock = (float)r.uni(-1, 2); if (r.chance(0.1)) d.colorize = (float)r.uni(-1, 2); if (r.chance(0.1)) d.posterize = (float)r.uni(-1, 2);
        if (r.chance(0.1)) d.posterize_num = (float)r.uni(-1, 4); if (r.chance(0.1)) d.paint = (float)r.uni(-1, 2); if (r.chance(0.05)) d.angle = (float)r.uni(-1e5, 1e5); if (r.chance(0.1)) d.hardness = (float)r.uni(0.0001, 0.01); if (r.chance(0.1)) d.opaque = (float)r.uni(0, 0.001);
    }
    return d;
}

// ---------------------------------------------------------------- tile store
static inline u64 h3(u64 s, int x, int y) { return mix64(s ^ mix64((u64)(u32)x * 0x9E3779B1u + ((u64)(u32)y << 32))); }
void Store::pixel(int x, int y, u16 *p) const {
    x -= cfg.dx; y -= cfg.dy;
    switch (cfg.init) {
    case 0: p[0] = p[1] = p[2] = p[3] = 0; return;
    case 1: p[0] = p[1] = p[2] = p[3] = 0xffff; return;
    case 2: p[0] = p[1] = p[2] = p[3] = 1 << 15; return;
    case 4: memcpy(p, cfg.uni, 8); return;
    case 3: case 5: {
        u64 k = h3(cfg.seed, x, y); u32 a;
        if (cfg.init == 5) { u64 b = h3(cfg.seed + 7, x >> 3, y >> 3); if (b & 1) { p[0] = p[1] = p[2] = p[3] = 0; return; } a = (b & 6) == 2 ? 1 << 15 : (u32)(b >> 8) % 32769; }
        else { a = (k & 7) == 0 ? 0 : (k & 7) < 3 ? 1 << 15 : (u32)(k >> 8) % 32769; }
        p[3] = a; for (int i = 0; i < 3; i++) { u64 z = mix64(k + i); p[i] = (z & 15) == 0 ? a : (z & 15) == 1 ? 0 : (u32)((z >> 8) % (a + 1)); } return; }
    }
}
Tile &Store::tile(TI t) {
    auto it = tiles.find(t); if (it != tiles.end()) return it->second;
    Tile &n = tiles[t]; n.px.resize(ts * ts * 4); rt_mem_fresh(n.px.data(), n.px.size() * 2);
    bool outside = cfg.fw >= 0 && (t.first < 0 || t.second < 0 || t.first >= cfg.fw || t.second >= cfg.fh);
    for (int y = 0; y < ts; y++) for (int x = 0; x < ts; x++) { if (outside) memset(&n.px[(y * ts + x) * 4], 0, 8); else pixel(t.first * ts + x, t.second * ts + y, &n.px[(y * ts + x) * 4]); }
    return n;
}
static int fdiv(int a, int b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
void Store::get(int x, int y, u16 *p) { int tx = fdiv(x, ts), ty = fdiv(y, ts); auto it = tiles.find({tx, ty}); if (it == tiles.end()) { if (cfg.fw >= 0 && (tx < 0 || ty < 0 || tx >= cfg.fw || ty >= cfg.fh)) memset(p, 0, 8); else pixel(x, y, p); return; } memcpy(p, &it->second.px[((y - ty * ts) * ts + x - tx * ts) * 4], 8); }
Snap Store::snap() const { Snap s; for (auto &t : tiles) s[t.first] = t.second.px; return s; }
void Store::touch_all(int x0, int y0, int x1, int y1) { for (int y = fdiv(y0, ts); y <= fdiv(y1, ts); y++) for (int x = fdiv(x0, ts); x <= fdiv(x1, ts); x++) tile({x, y}); }
enum { GUARD = 64 }; static const u16 GP = 0xC3A5, PP = 0x5A96;
Store::~Store() { for (auto b : pool) free(b); for (auto &p : poisoned) { UNPOISON(p.first, p.second * 2); free(p.first); } for (auto &r : reqs) if (r.second.base) free(r.second.base); }
void Store::start(MyPaintTileRequest *r) {
    OutLib ol; rt_hot(); requests++;
    TI t{r->tx, r->ty}; sim_hash(0x7000 + h3(r->readonly ? 1 : 2, r->tx, r->ty));
    if (cfg.protocol) {
        CHECK(r->mipmap_level == 0, "tile-protocol", "tile (%d,%d) requested with mipmap level %d", r->tx, r->ty, r->mipmap_level);
        int others = 0, maxt = cfg.max_threads;
        for (auto &q : reqs) { if (q.second.failed) continue; if (q.second.tid != rt_tid()) { others++;
                if (q.second.thread == r->thread_id) sim_fail("tile-thread-id", "two workers hold tiles at the same time with the same thread number %d", r->thread_id); }
            if (q.second.t == t && (!q.second.ro || !r->readonly)) sim_fail("tile-aliased", "tile (%d,%d) requested for %s while it is out for %s", r->tx, r->ty, r->readonly ? "reading" : "writing", q.second.ro ? "reading" : "writing"); }
        if (!cfg.threadsafe) { CHECK(!others, "tile-concurrent", "tile (%d,%d) requested by a second thread although the store is not thread-safe", r->tx, r->ty); CHECK(rt_tid() == home_tid, "tile-concurrent", "tile (%d,%d) requested from a worker thread although the store is not thread-safe", r->tx, r->ty); }
        if (rt_in_parallel()) CHECK(r->thread_id >= 0 && r->thread_id < maxt, "tile-thread-id", "thread number %d outside 0..%d", r->thread_id, maxt - 1);
        if (others) { sim_count("tile_requests_concurrent"); max_conc = std::max(max_conc, (u64)others + 1); }
    }
    Req q; q.t = t; q.ro = r->readonly; q.r = r; q.thread = r->thread_id; q.tid = rt_tid(); q.level = r->mipmap_level; q.base = 0; q.buf = 0; q.outside = cfg.fw >= 0 && (t.first < 0 || t.second < 0 || t.first >= cfg.fw || t.second >= cfg.fh); q.failed = false;
    void *token = (void *)(0x7000000ull + (++tokens)); r->context = token;
    bool f = fail_all || fail_tiles.count(t) || (only_row != INT32_MIN && t.second != only_row); if (!f && cfg.p_fail > 0) { u64 n = fcount[t]++; f = (mix64(h3(cfg.fail_seed, t.first, t.second) + n) >> 11) * (1.0 / 9007199254740992.0) < cfg.p_fail; }
    if (!r->readonly) wlog.push_back({t, !f});
    if (f) { failed++; seen_fail[t]++; sim_count(r->readonly ? "fault_tile_read_failed" : "fault_tile_write_failed"); r->buffer = 0; q.failed = true; reqs[token] = q; rt_hot(); return; }
    Tile &T = tile(t); if (!r->readonly) { writes++; wcount[t]++; }
    int n = ts * ts * 4;
    if (cfg.mode == 0 && !q.outside) q.buf = T.px.data();
    else {
        if (!pool.empty()) { q.base = pool.back(); pool.pop_back(); } else q.base = (u16 *)malloc((n + 2 * GUARD) * 2);
        for (int i = 0; i < GUARD; i++) q.base[i] = q.base[GUARD + n + i] = GP;
        q.buf = q.base + GUARD; memcpy(q.buf, T.px.data(), n * 2); POISON(q.base, GUARD * 2); POISON(q.buf + n, GUARD * 2); rt_mem_fresh(q.buf, n * 2);
    }
    if (r->readonly) q.before.assign(q.buf, q.buf + n);
    r->buffer = q.buf; inflight++; reqs[token] = q; rt_hot();
}
void Store::end(MyPaintTileRequest *r) {
    OutLib ol; rt_hot(); int n = ts * ts * 4;
    auto it = reqs.find(r->context);
    if (it == reqs.end()) sim_fail("tile-double-end", "tile (%d,%d) returned without being out (returned twice, or never requested)", r->tx, r->ty);
    Req q = it->second; reqs.erase(it); if (q.failed) return; // allowed: nothing was handed out
    inflight--;
    if (cfg.protocol) {
        CHECK(r->tx == q.t.first && r->ty == q.t.second && !!r->readonly == !!q.ro && r->buffer == q.buf && r->mipmap_level == q.level && r->thread_id == q.thread, "tile-request-changed", "request for tile (%d,%d) came back changed: (%d,%d) readonly %d->%d buffer %s thread %d->%d", q.t.first, q.t.second, r->tx, r->ty, q.ro, r->readonly, r->buffer == q.buf ? "same" : "other", q.thread, r->thread_id);
        CHECK(rt_tid() == q.tid || cfg.threadsafe, "tile-concurrent", "tile returned by another thread");
        if (q.ro && memcmp(q.buf, q.before.data(), n * 2)) sim_fail("tile-readonly-written", "tile (%d,%d) was requested read-only but modified", r->tx, r->ty);
    }
    if (q.base) {
        UNPOISON(q.base, (n + 2 * GUARD) * 2);
        for (int i = 0; i < GUARD; i++) if (q.base[i] != GP || q.base[GUARD + n + i] != GP) sim_fail("tile-overrun", "memory next to the buffer of tile (%d,%d) was overwritten", r->tx, r->ty);
        Tile &T = tile(q.t); if (!q.ro && !q.outside) memcpy(T.px.data(), q.buf, n * 2);
        int tot = n + 2 * GUARD; for (int i = 0; i < tot; i++) q.base[i] = PP; POISON(q.base, tot * 2); poisoned.push_back({q.base, tot});
        if (poisoned.size() > 6) { auto p = poisoned.front(); poisoned.erase(poisoned.begin()); UNPOISON(p.first, p.second * 2); for (int i = 0; i < p.second; i++) if (p.first[i] != PP) sim_fail("tile-late-write", "a tile buffer was written after it had been returned"); pool.push_back(p.first); }
    } else rt_hot();
}
void Store::idle(const char *after) {
    for (auto it = reqs.begin(); it != reqs.end();) { if (it->second.failed) it = reqs.erase(it); else ++it; }
    CHECK(!cfg.protocol || (inflight == 0 && reqs.empty()), "tile-not-returned", "%d tile(s) not returned after %s, e.g. (%d,%d)", inflight, after, reqs.empty() ? 0 : reqs.begin()->second.t.first, reqs.empty() ? 0 : reqs.begin()->second.t.second);
    for (auto &p : poisoned) { UNPOISON(p.first, p.second * 2); for (int i = 0; i < p.second; i++) if (p.first[i] != PP) sim_fail("tile-late-write", "a tile buffer was written after it had been returned (seen after %s)", after); POISON(p.first, p.second * 2); }
}
std::string diff_stores(Store &a, Store &b, int dx, int dy) {
    // b is expected to hold a's content moved by (dx,dy)
    std::set<TI> done; u16 p[4], q[4]; char buf[300];
    auto cmp = [&](Store &s, Store &o, int sx, int sy, bool rev) -> std::string {
        for (auto &t : s.tiles) {
            if (dx == 0 && dy == 0 && s.ts == o.ts) { if (!done.insert(t.first).second) continue; auto it = o.tiles.find(t.first); if (it != o.tiles.end() && it->second.px == t.second.px) continue; }
            for (int y = 0; y < s.ts; y++) for (int x = 0; x < s.ts; x++) {
                int X = t.first.first * s.ts + x, Y = t.first.second * s.ts + y; memcpy(p, &t.second.px[(y * s.ts + x) * 4], 8); o.get(X + sx, Y + sy, q);
                if (memcmp(p, q, 8)) { const u16 *u = rev ? q : p, *v = rev ? p : q; snprintf(buf, sizeof buf, "pixel (%d,%d): %d,%d,%d,%d versus %d,%d,%d,%d", rev ? X + sx : X, rev ? Y + sy : Y, u[0], u[1], u[2], u[3], v[0], v[1], v[2], v[3]); return buf; }
            }
        }
        return "";
    };
    std::string r = cmp(a, b, dx, dy, false); if (!r.empty()) return r; return cmp(b, a, -dx, -dy, true);
}
static void ss_start(MyPaintTiledSurface *s, MyPaintTileRequest *r) { ((SimSurface *)s)->st->start(r); }
static void ss_end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { ((SimSurface *)s)->st->end(r); }
static void ss_destroy(MyPaintSurface *s) { SimSurface *z = (SimSurface *)s; CHECK(!z->dead, "double-destroy", "surface destroyed twice"); mypaint_tiled_surface_destroy(&z->parent); OutLib o; z->dead = true; }
// Dabs and pickups too large or too far away to simulate in reasonable time never reach the library (the engine sees a surface that ignores them).
static int ss_draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float ratio, float angle, float lock, float colorize, float posterize, float pn, float paint) {
    if (!(radius < 130) || !(std::fabs(x) < 2500) || !(std::fabs(y) < 2500)) { sim_count("workload_dab_out_of_bounds"); return 0; }
    return ((SimSurface *)s)->draw0(s, x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, pn, paint); }
static void ss_pick(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    if (!(radius < 130) || !(std::fabs(x) < 2500) || !(std::fabs(y) < 2500)) { sim_count("workload_pick_out_of_bounds"); *r = 0.5f; *g = 0.25f; *b = 0.125f; *a = 1; return; }
    ((SimSurface *)s)->pick0(s, x, y, radius, r, g, b, a, paint); }
SimSurface *surf_new(const StoreCfg &c) {
    SimSurface *s = (SimSurface *)malloc(sizeof(SimSurface)); memset((void *)s, 0, sizeof *s); al_fill(&s->parent, sizeof s->parent); /* a subclass hands over memory with arbitrary contents */ s->st = new Store; s->st->cfg = c; s->st->home_tid = rt_tid(); sim_note("tiled_surface_init");
    { InLib l; mypaint_tiled_surface_init(&s->parent, ss_start, ss_end); }
    s->parent.parent.destroy = ss_destroy; s->draw0 = s->parent.parent.draw_dab; s->pick0 = s->parent.parent.get_color; s->parent.parent.draw_dab = ss_draw; s->parent.parent.get_color = ss_pick; s->parent.threadsafe_tile_requests = c.threadsafe; s->st->ts = s->parent.tile_size;
    return s;
}
void surf_unref(SimSurface *s) { sim_note("surface_unref"); { InLib l; mypaint_surface_unref(IF(s)); } if (s->dead) { s->st->idle("destroying the surface"); delete s->st; free(s); } }

// ---------------------------------------------------------------- calls
static void note_dab(const Dab &d) { char b[150]; snprintf(b, sizeof b, "draw_dab x=%.7g y=%.7g r=%.6g", d.x, d.y, d.radius); sim_note(b); }
int L_draw(MyPaintSurface *s, const Dab &d) { note_dab(d); sim_count("op_draw"); InLib l; return mypaint_surface_draw_dab(s, d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.ratio, d.angle, d.lock, d.colorize, d.posterize, d.posterize_num, d.paint); }
void L_begin(MyPaintSurface *s) { sim_note("begin_atomic"); InLib l; mypaint_surface_begin_atomic(s); }
void L_end(MyPaintSurface *s, MyPaintRectangles *r) { sim_note("end_atomic"); sim_count("op_transaction"); InLib l; mypaint_surface_end_atomic(s, r); }
Col L_pick(MyPaintSurface *s, float x, float y, float radius, float paint) { char b[150]; snprintf(b, sizeof b, "get_color x=%.7g y=%.7g r=%.6g paint=%.3g", x, y, radius, paint); sim_note(b); sim_count("op_pick"); Col c; InLib l; mypaint_surface_get_color(s, x, y, radius, &c.r, &c.g, &c.b, &c.a, paint); return c; }
void L_symm(SimSurface *s, bool active, float cx, float cy, float ang, int type, int lines) { char b[150]; snprintf(b, sizeof b, "set_symmetry_state active=%d type=%d lines=%d", active, type, lines); sim_note(b); sim_count("op_symmetry"); InLib l; mypaint_tiled_surface_set_symmetry_state(&s->parent, active, cx, cy, ang, (MyPaintSymmetryType)type, lines); }

// ---------------------------------------------------------------- recording surface
static int rec_draw(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float a, float ratio, float angle, float lock, float colorize, float posterize, float pn, float paint) {
    OutLib o; RecSurface *z = (RecSurface *)s; Dab d{x, y, radius, r, g, b, opaque, hardness, softness, a, ratio, angle, lock, colorize, posterize, pn, paint}; rt_hot();
    if (z->check_finite) { const float *f = (const float *)&d; for (int i = 0; i < 17; i++) if (!std::isfinite(f[i])) sim_fail("dab-not-finite", "dab parameter %d is not finite: %s", i, dab_str(d).c_str()); }
    if (z->dabs->size() < z->cap) z->dabs->push_back({d, z->ev}); else z->dropped++;
    z->ndabs++; hash_dab(d);
    switch (z->retmode) { case 1: return 1; case 2: return 0; case 3: return (int)(mix64(z->retseed + z->ndabs) & 1); case 4: return (int)((mix64(z->retseed + z->ev / 6) & 3) != 0); default: return !(radius < 0.1f || hardness <= 0 || softness >= 1 || opaque <= 0); }
}
static void rec_pick(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) {
    OutLib o; RecSurface *z = (RecSurface *)s; z->picks++; rt_hot();
    if (z->check_finite) CHECK(std::isfinite(x) && std::isfinite(y) && std::isfinite(radius) && std::isfinite(paint), "dab-not-finite", "pickup at a position or radius that is not finite: %g %g %g", x, y, radius);
    int cx = (int)std::floor(std::max(-1e6f, std::min(1e6f, x)) / 8), cy = (int)std::floor(std::max(-1e6f, std::min(1e6f, y)) / 8); u64 k = h3(z->seed, cx, cy);
    auto f = [&](int i) { return (float)((mix64(k + i) >> 40) / 16777216.0); };
    switch (z->mode) { case 0: *r = f(0); *g = f(1); *b = f(2); *a = f(3); break; case 1: *r = 0.25f; *g = 0.5f; *b = 0.75f; *a = 1; break; case 2: *r = 0; *g = 1; *b = 0; *a = 0; break; default: *r = f(0); *g = f(1); *b = f(2); *a = (k & 3) == 0 ? 0 : (k & 3) == 1 ? 1 : f(3); }
}
RecSurface *rec_new(int m, u64 seed) { RecSurface *z = (RecSurface *)calloc(1, sizeof *z); mypaint_surface_init(&z->parent); z->parent.draw_dab = rec_draw; z->parent.get_color = rec_pick; z->dabs = new std::vector<RecDab>; z->mode = m; z->seed = seed; z->cap = 60000; return z; }
void rec_free(RecSurface *r) { delete r->dabs; free(r); }
std::string diff_dabs(const std::vector<RecDab> &a, const std::vector<RecDab> &b, size_t a0, size_t b0) {
    size_t n = std::max(a.size() - a0, b.size() - b0); char buf[160];
    for (size_t i = 0; i < n; i++) {
        if (a0 + i >= a.size() || b0 + i >= b.size()) { snprintf(buf, sizeof buf, "%zu dabs versus %zu; first extra (event %llu): ", a.size() - a0, b.size() - b0, (unsigned long long)(a0 + i < a.size() ? a[a0 + i].ev : b[b0 + i].ev)); return buf + dab_str(a0 + i < a.size() ? a[a0 + i].d : b[b0 + i].d); }
        if (!dab_eq(a[a0 + i].d, b[b0 + i].d)) { snprintf(buf, sizeof buf, "dab %zu (event %llu): ", i, (unsigned long long)a[a0 + i].ev); return buf + dab_str(a[a0 + i].d) + " versus " + dab_str(b[b0 + i].d); }
    }
    return "";
}

// ---------------------------------------------------------------- brushes
MyPaintBrush *brush_new(int buckets) { sim_note("brush_new"); InLib l; return buckets > 0 ? mypaint_brush_new_with_buckets(buckets) : mypaint_brush_new(); }
bool apply_brush_op(MyPaintBrush *b, const Op &o) {
    char nt[100]; snprintf(nt, sizeof nt, "brush op %s %d", o.k.c_str(), o.iarg(0)); sim_note(nt);
    if (o.k == "defaults") { InLib l; mypaint_brush_from_defaults(b); return true; }
    int id = o.iarg(0); if (id < 0 || id >= MYPAINT_BRUSH_SETTINGS_COUNT) return o.k == "set" || o.k == "map";
    if (o.k == "set") { InLib l; mypaint_brush_set_base_value(b, (MyPaintBrushSetting)id, (float)o.arg(1)); return true; }
    if (o.k == "map") {
        int in = o.iarg(1); if (in < 0 || in >= MYPAINT_BRUSH_INPUTS_COUNT) return true; int n = o.a.size() > 2 ? (int)(o.a.size() - 2) / 2 : 0; if (n == 1) return true; if (n > 64) n = 64;
        for (int i = 1; i < n; i++) if ((float)o.arg(2 + 2 * i) < (float)o.arg(2 + 2 * (i - 1))) return true; // not a curve (after minimisation)
        InLib l; mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, n);
        for (int i = 0; i < n; i++) mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)in, i, (float)o.arg(2 + 2 * i), (float)o.arg(3 + 2 * i));
        return true;
    }
    return false;
}
const char *SET_NAME(int id) { return mypaint_brush_setting_info((MyPaintBrushSetting)id)->cname; }
#define S(n) MYPAINT_BRUSH_SETTING_##n
static void range_of(int id, const BrushGen &g, double &lo, double &hi) {
    const MyPaintBrushSettingInfo *i = mypaint_brush_setting_info((MyPaintBrushSetting)id); lo = i->min; hi = i->max;
    switch (id) {
    case S(RADIUS_LOGARITHMIC): lo = g.rlog_min; hi = g.rlog_max; break;
    case S(DABS_PER_BASIC_RADIUS): case S(DABS_PER_ACTUAL_RADIUS): lo = 0; hi = 5; break;
    case S(DABS_PER_SECOND): hi = 60; break;
    case S(GRIDMAP_SCALE): lo = -3; hi = 2; break;
    case S(OFFSET_X): case S(OFFSET_Y): case S(OFFSET_ANGLE): case S(OFFSET_ANGLE_ASC): case S(OFFSET_ANGLE_VIEW): lo = -4; hi = 4; break;
    case S(OFFSET_ANGLE_2): case S(OFFSET_ANGLE_2_ASC): case S(OFFSET_ANGLE_2_VIEW): hi = 4; break;
    case S(OFFSET_MULTIPLIER): hi = 1; break; case S(OFFSET_BY_RANDOM): hi = 3; break; case S(TRACKING_NOISE): hi = 2; break; case S(SLOW_TRACKING): hi = 6; break;
    case S(SMUDGE_LENGTH_LOG): hi = 5; break; case S(SMUDGE_BUCKET): hi = 8; break; case S(SPEED1_GAMMA): case S(SPEED2_GAMMA): lo = -4; hi = 6; break; case S(STROKE_DURATION_LOGARITHMIC): hi = 6; break; case S(OFFSET_BY_SPEED): lo = -2; hi = 2; break;
    }
}
// A curve that is steep at its ends can ask for any number of dabs where its input leaves the points' range; the
// library obeys.  Runs must end, so curves on the settings that multiply dabs are scaled to ask for a dozen at most.
void tame_map(std::vector<double> &a) {
    int id = (int)a[0], n = (int)(a.size() - 2) / 2; if (n < 2 || (id != S(DABS_PER_BASIC_RADIUS) && id != S(DABS_PER_ACTUAL_RADIUS) && id != S(DABS_PER_SECOND) && id != S(ELLIPTICAL_DAB_RATIO))) return;
    double cap = id == S(DABS_PER_SECOND) ? 200 : 12, worst = 0; auto at = [&](double x0, double y0, double x1, double y1, double x) { return x1 == x0 ? y0 : y0 + (y1 - y0) * (x - x0) / (x1 - x0); };
    for (int i = 0; i < n; i++) worst = std::max(worst, std::fabs(a[3 + 2 * i]));
    worst = std::max(worst, std::fabs(at(a[2], a[3], a[4], a[5], -400))); worst = std::max(worst, std::fabs(at(a[2 * n - 2], a[2 * n - 1], a[2 * n], a[2 * n + 1], 400)));
    if (worst > cap) for (int i = 0; i < n; i++) a[3 + 2 * i] = f32(a[3 + 2 * i] * cap / worst);
}
void gen_brush(Rng &r, Plan &p, const BrushGen &g, const char *prefix) {
    std::string D = std::string(prefix) + "defaults", SE = std::string(prefix) + "set", M = std::string(prefix) + "map";
    p.add(D.c_str());
    auto skip = [&](int id) {
        if (!g.random && (id == S(RADIUS_BY_RANDOM) || id == S(OFFSET_BY_RANDOM) || id == S(TRACKING_NOISE))) return true; if (!g.noise && id == S(TRACKING_NOISE)) return true;
        if (!g.smudge && (id == S(SMUDGE) || id == S(SMUDGE_TRANSPARENCY))) return true; if (!g.smudge_transp && id == S(SMUDGE_TRANSPARENCY)) return true; if (!g.slow_tracking && id == S(SLOW_TRACKING)) return true; return false; };
    double lo, hi; p.add(SE.c_str(), {(double)S(RADIUS_LOGARITHMIC), f32(r.uni(g.rlog_min, g.rlog_max))}); p.add(SE.c_str(), {(double)S(OPAQUE), f32(r.chance(0.5) ? 1 : r.uni(0.1, 1.5))});
    if (r.chance(0.6)) p.add(SE.c_str(), {(double)S(DABS_PER_ACTUAL_RADIUS), f32(r.uni(0.2, 4))}); if (r.chance(0.3)) p.add(SE.c_str(), {(double)S(DABS_PER_SECOND), f32(r.uni(1, 60))});
    if (g.smudge && r.chance(0.5)) { p.add(SE.c_str(), {(double)S(SMUDGE), f32(r.uni(0.1, 1))}); if (r.chance(0.5)) p.add(SE.c_str(), {(double)S(SMUDGE_LENGTH), f32(r.uni(0, 1))}); if (r.chance(0.5)) p.add(SE.c_str(), {(double)S(PAINT_MODE), f32(r.chance(0.5) ? 0 : r.u())}); if (g.buckets) p.add(SE.c_str(), {(double)S(SMUDGE_BUCKET), f32(r.uni(-1, 9))}); }
    int n = r.range(2, 16);
    for (int i = 0; i < n; i++) { int id = r.range(0, MYPAINT_BRUSH_SETTINGS_COUNT - 1); if (skip(id)) continue; range_of(id, g, lo, hi); double v = r.chance(0.1) ? lo : r.chance(0.1) ? hi : r.uni(lo, hi); p.add(SE.c_str(), {(double)id, f32(v)}); }
    if (r.chance(0.5)) p.add(SE.c_str(), {(double)S(OPAQUE_MULTIPLY), f32(r.uni(0.2, 1))});
    if (g.dynamics) {
        int m = r.range(0, 9);
        for (int i = 0; i < m; i++) {
            int id = r.range(0, MYPAINT_BRUSH_SETTINGS_COUNT - 1); if (skip(id)) continue; if (!g.gridmap_dyn && (id == S(GRIDMAP_SCALE) || id == S(GRIDMAP_SCALE_X) || id == S(GRIDMAP_SCALE_Y))) continue;
            int in = r.range(0, MYPAINT_BRUSH_INPUTS_COUNT - 1); if (!g.random && in == MYPAINT_BRUSH_INPUT_RANDOM) continue;
            const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)in); range_of(id, g, lo, hi); double span = (hi - lo) * 0.5; if (id == S(RADIUS_LOGARITHMIC)) span = std::min(span, 0.4); if (id == S(DABS_PER_SECOND)) span = 20;
            int k = r.range(2, 5); std::vector<double> xs; for (int j = 0; j < k; j++) xs.push_back(f32(r.uni(ii->soft_min, ii->soft_max))); std::sort(xs.begin(), xs.end());
            std::vector<double> a{(double)id, (double)in}; for (int j = 0; j < k; j++) { a.push_back(xs[j]); a.push_back(f32(r.uni(-span, span))); } tame_map(a); p.add(M.c_str(), a);
        }
    }
}
// ---------------------------------------------------------------- input device
std::vector<double> ev_args(const Ev &e) { return {e.x, e.y, e.pressure, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, (double)e.linear}; }
Ev ev_from(const Op &o, size_t k) { Ev e; e.x = (float)o.arg(k); e.y = (float)o.arg(k + 1); e.pressure = (float)o.arg(k + 2); e.xt = (float)o.arg(k + 3); e.yt = (float)o.arg(k + 4); e.dt = o.arg(k + 5, 0.01); e.zoom = (float)o.arg(k + 6, 1); if (!(e.zoom > 0)) e.zoom = 1; e.rot = (float)o.arg(k + 7); e.barrel = (float)o.arg(k + 8); e.linear = o.iarg(k + 9); return e; }
std::string ev_str(const Ev &e) { char b[300]; snprintf(b, sizeof b, "event(x=%.9g y=%.9g p=%.9g tilt=%.4g,%.4g dt=%.9g zoom=%.6g rot=%.6g barrel=%.4g linear=%d)", e.x, e.y, e.pressure, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, e.linear); return b; }
Ev gen_ev(Rng &r, EvState &s, const EvGen &g) {
    Ev e; if (s.left-- <= 0) { s.left = r.range(2, 14); s.down = s.down ? r.chance(0.35) : r.chance(0.8); double sp = g.speed * r.uni(5, 900); double th = r.uni(0, 6.2831853); s.vx = sp * std::cos(th); s.vy = sp * std::sin(th); if (r.chance(0.08)) s.vx = s.vy = 0; }
    double dt = r.chance(0.7) ? 0.008 * r.uni(0.5, 1.5) : r.uni(0.001, 0.08);
    if (g.faults) {
        if (r.chance(0.05)) { dt = 0; } else if (r.chance(0.03)) { dt = -r.uni(0, 2); }
        else if (r.chance(0.04)) { dt = r.uni(0.1, 4.5); } else if (r.chance(g.gap5)) { dt = r.uni(5.01, 30); } else if (r.chance(0.05)) { dt = 1e-6 * r.uni(0.1, 100); }
    }
    double m = std::max(0.0, std::min(dt, 0.2)); s.x += s.vx * m; s.y += s.vy * m; if (s.x > g.area || s.x < -g.area) { s.vx = -s.vx; s.x = std::max(-g.area, std::min(g.area, s.x)); } if (s.y > g.area || s.y < -g.area) { s.vy = -s.vy; s.y = std::max(-g.area, std::min(g.area, s.y)); }
    if (g.faults && r.chance(0.02)) { s.x = r.uni(-g.area, g.area); s.y = r.uni(-g.area, g.area); }
    if (s.down) s.p = std::max(0.02, std::min(1.0, s.p + r.uni(-0.15, 0.25))); else s.p = 0;
    if (g.view && r.chance(0.03)) { s.zoom = f32(r.uni(0.2, 4)); s.rot = f32(r.uni(-3.1, 3.1)); } if (g.tilt) { s.xt = std::max(-1.0, std::min(1.0, s.xt + r.uni(-.1, .1))); s.yt = std::max(-1.0, std::min(1.0, s.yt + r.uni(-.1, .1))); }
    auto q = [&](double v) { return g.quant > 0 ? std::floor(v / g.quant + 0.5) * g.quant : v; };
    e.x = f32(q(g.cx + s.x)); e.y = f32(q(g.cy + s.y)); e.pressure = f32(s.p); e.xt = f32(s.xt); e.yt = f32(s.yt); e.dt = dt; e.zoom = s.zoom; e.rot = s.rot; e.barrel = g.tilt ? f32(r.chance(0.3) ? r.uni(0, 1) : 0) : 0; e.linear = 0; 
    return e;
}
int L_stroke(MyPaintBrush *b, MyPaintSurface *s, const Ev &e) { char nt[160]; snprintf(nt, sizeof nt, "stroke_to x=%.7g y=%.7g p=%.5g dt=%.6g", e.x, e.y, e.pressure, e.dt); sim_note(nt); sim_count("op_event"); sim_time(std::max(0.0, e.dt)); if (e.dt == 0) sim_count("fault_clock_duplicate"); else if (e.dt < 0) sim_count("fault_clock_backwards"); else if (e.dt > 5) sim_count("fault_clock_jump"); else if (e.dt > 0.1) sim_count("fault_input_stall"); else if (e.dt < 1e-4) sim_count("fault_input_burst"); InLib l; return mypaint_brush_stroke_to(b, s, e.x, e.y, e.pressure, e.xt, e.yt, e.dt, e.zoom, e.rot, e.barrel, e.linear); }

void gen_sched(Rng &r, Plan &p, int maxthreads, double heavy) {
    p.cfg["threads"] = r.range(2, maxthreads); p.cfg["p_access"] = heavy * std::pow(10.0, r.uni(-4.5, -1.3)); p.cfg["p_hot"] = r.chance(0.3) ? 0 : r.uni(0.05, 0.7); p.cfg["sseed"] = (double)(r.next() >> 20);
}
SchedCfg sched_from(const Plan &p) { SchedCfg s; s.omp_threads = std::max(1, std::min(64, p.ci("threads", 1))); s.p_access = p.c("p_access"); s.p_hot = p.c("p_hot"); s.seed = (u64)p.c("sseed", 1); s.ompProcs = s.omp_threads; return s; }
// work of others before the run: unrelated settings, events, dabs, symmetry and pickups, all released again
void warm_up(u64 seed) {
    Rng r(mix64(seed ^ 0x3a93)); Plan q; BrushGen g; g.random = true; g.rlog_max = 2; g.buckets = true; gen_brush(r, q, g);
    MyPaintBrush *b = brush_new(2); if (!b) return; apply_brush_op(b, Op{"defaults"}); for (auto &o : q.ops) apply_brush_op(b, o);
    RecSurface *rs = rec_new(0, seed); EvState es; EvGen eg; eg.area = 30; for (int i = 0; i < 8; i++) { Ev e = gen_ev(r, es, eg); if (e.dt > 1) e.dt = 0.02; if (i > 2) e.pressure = 0.7f; L_stroke(b, IF(rs), e); }
    StoreCfg c; c.seed = seed; c.init = 2; SimSurface *s = surf_new(c); if (s) { DabGen dg; dg.area = 20; dg.rmax = 8; L_begin(IF(s)); for (int i = 0; i < 3; i++) L_draw(IF(s), gen_dab(r, dg)); L_pick(IF(s), 3, 4, 6, 0.5f); L_end(IF(s)); L_symm(s, true, 2, 3, 30, r.range(0, 4), 3); L_begin(IF(s)); L_draw(IF(s), gen_dab(r, dg)); L_end(IF(s)); L_pick(IF(s), 3, 4, 9, -1); surf_unref(s); }
    rec_free(rs); { InLib l; mypaint_brush_unref(b); } sim_count("probe_earlier_work");
}
