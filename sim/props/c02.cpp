// C02: the canvas is its dabs applied one by one in call order, whatever the grouping, flushing and tile grid.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["threadsafe"] = 0;
    CanvasGen g; g.dab.quant = g.quant = 0.0625; g.nmax = tier ? 60 : 30; g.dab.area = r.pick(std::vector<double>{10, 30, 60, 90}); g.dab.rmin = 0.3; g.dab.rmax = r.pick(std::vector<double>{4, 15, 40}); g.maxlines = 36; g.symm = r.chance(0.5); g.spread = r.chance(0.35); g.pick_rmax = r.pick(std::vector<double>{5, 40}); g.p_end = r.chance(0.5) ? 0.03 : 0.15; g.p_pick = r.pick(std::vector<double>{0, 0.2, 0.4});
    if (r.chance(0.15)) { g.cycles = true; g.nmax = 12; }
    p.cfg["dx"] = r.chance(0.15) ? 0 : r.range(-150, 150); p.cfg["dy"] = r.range(-150, 150); p.cfg["probe"] = r.chance(0.5);
    gen_canvas(r, p, g);
    if (!g.symm && r.chance(0.06)) { int wide = r.chance(0.25); Op o{"pile", {(double)wide, (double)(wide ? r.range(20, 30) : r.pick(std::vector<int>{300, 700, 1500, 3000, 5000})), (double)r.range(1, 1 << 30), (double)r.range(-40, 40), (double)r.range(-40, 40)}}; p.ops.insert(p.ops.begin() + r.range(0, (int)p.ops.size()), o); if (r.chance(0.5)) p.ops.insert(p.ops.begin() + r.range(0, (int)p.ops.size()), Op{"begin"}); }
    if (p.cfg["probe"]) { Dab d = gen_dab(r, g.dab); d.radius = (float)r.uni(1.6, 40); p.add("solid", dab_args(d)); }
}
// many dabs at once: on a few pixels of one place, or over thousands of tiles
static std::vector<Dab> pile(const Op &o) { std::vector<Dab> v; Rng r((u64)o.arg(2, 1)); bool wide = o.iarg(0); int n = std::max(0, std::min(6000, o.iarg(1))); double cx = std::max(-500.0, std::min(500.0, o.arg(3))), cy = std::max(-500.0, std::min(500.0, o.arg(4)));
    for (int i = 0; i < n; i++) { Dab d = dab_from(Op{"dab"}); d.x = (float)(std::floor((wide ? cx + (i % 6) * 240 - 700 : cx + r.uni(0, 12)) * 16) / 16); d.y = (float)(std::floor((wide ? cy + (i / 6) * 240 - 500 : cy + r.uni(0, 12)) * 16) / 16); d.radius = wide ? 124 : (float)r.uni(0.6, 2); d.r = (float)r.u(); d.g = (float)r.u(); d.b = (float)r.u(); d.a = r.chance(0.8) ? 1 : (float)r.u(); d.opaque = wide ? 0.7f : (float)std::min(0.6, 90.0 / n); d.hardness = (float)r.uni(0.4, 1); d.softness = 0; d.ratio = 1; d.angle = 0; d.lock = d.colorize = d.posterize = d.posterize_num = d.paint = 0; v.push_back(d); } return v; }
struct Out { SimSurface *s; std::vector<Col> picks; };
// mode 0: as planned; 1: every dab in a transaction of its own and no pickups pending; 2: as planned, moved by (dx,dy)
static void run(SimSurface *s, const Plan &p, int mode, std::vector<Col> &picks, int dx, int dy, std::vector<Snap> *snaps, Store *other, bool any_symm) {
    bool open = false; bool ref = mode == 1;
    auto end = [&]() { if (!open) return; L_end(IF(s)); open = false; s->st->idle("end_atomic"); };
    auto begin = [&]() { if (!open) { L_begin(IF(s)); open = true; } };
    size_t nend = 0;
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(); begin(); } else if (o.k == "end") { end(); nend++; }
        else if (o.k == "dab" || o.k == "solid") { Dab d = dab_from(o); d.x += dx; d.y += dy; if (o.k == "solid") { d.opaque = d.hardness = d.a = d.ratio = 1; d.softness = d.lock = d.colorize = d.posterize = d.paint = 0; end(); begin(); }
            begin(); L_draw(IF(s), d); if (ref) { end(); }
            if (o.k == "solid") { end(); u16 q[4]; u16 w[3] = {(u16)(std::max(0.f, std::min(1.f, d.r)) * 32768), (u16)(std::max(0.f, std::min(1.f, d.g)) * 32768), (u16)(std::max(0.f, std::min(1.f, d.b)) * 32768)};
                if (std::fabs(d.x) < 2000 && std::fabs(d.y) < 2000 && d.radius < 200) for (int y = (int)std::floor(d.y - d.radius); y <= d.y + d.radius; y++) for (int x = (int)std::floor(d.x - d.radius); x <= d.x + d.radius; x++) if (std::hypot(x + .5 - d.x, y + .5 - d.y) <= d.radius - 1.5) { s->st->get(x, y, q); sim_count("probe_solid_pixels");
                    if (abs(q[0] - w[0]) > 4 || abs(q[1] - w[1]) > 4 || abs(q[2] - w[2]) > 4 || q[3] != 32768) { if (!any_symm) sim_fail("dab-incomplete", "pixel (%d,%d) well inside a solid dab at (%g,%g) radius %g holds %d,%d,%d,%d instead of %d,%d,%d,32768", x, y, d.x, d.y, d.radius, q[0], q[1], q[2], q[3], w[0], w[1], w[2]); } } } }
        else if (o.k == "pile") { begin(); for (Dab d : pile(o)) { begin(); d.x += dx; d.y += dy; L_draw(IF(s), d); if (ref) end(); } if (!ref) sim_count("probe_many_pending"); }
        else if (o.k == "symm") { if (mode == 2) continue; end(); L_symm(s, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5)); }
        else if (o.k == "pick") { rt_set_rand(0, (u64)o.arg(4, 1)); Col c = L_pick(IF(s), (float)(o.arg(0) + dx), (float)(o.arg(1) + dy), (float)o.arg(2), (float)o.arg(3)); s->st->idle("get_color"); picks.push_back(c); }
    }
    end();
}
static void cmp_picks(std::vector<Col> &a, std::vector<Col> &b, const char *cls) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { Col &x = a[i], &y = b[i]; CHECK(!memcmp(&x, &y, sizeof x), cls, "pickup %zu: %.9g,%.9g,%.9g,%.9g versus %.9g,%.9g,%.9g,%.9g", i + 1, x.r, x.g, x.b, x.a, y.r, y.g, y.b, y.a); } }
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); rt_set_threads(1); std::vector<Col> pa, pb, pc; bool symm = false; for (auto &o : p.ops) symm |= o.k == "symm";
    SimSurface *a = surf_new(c), *b = surf_new(c);
    run(a, p, 0, pa, 0, 0, 0, 0, symm); run(b, p, 1, pb, 0, 0, 0, 0, symm);
    std::string d = diff_stores(*a->st, *b->st); CHECK(d.empty(), "grouping-changes-canvas", "as called versus one dab per transaction: %s", d.c_str());
    cmp_picks(pa, pb, "grouping-changes-pick");
    if (!symm) { StoreCfg c2 = c; c2.dx = p.ci("dx"); c2.dy = p.ci("dy"); SimSurface *m = surf_new(c2); run(m, p, 2, pc, c2.dx, c2.dy, 0, 0, false); d = diff_stores(*a->st, *m->st, c2.dx, c2.dy); CHECK(d.empty(), "position-changes-canvas", "moved by (%d,%d): %s", c2.dx, c2.dy, d.c_str()); surf_unref(m); sim_count("probe_translated"); }
    sim_hash(store_hash(*a->st)); if (a->st->writes > 1) sim_nontrivial(); sim_state(mix64(a->st->tiles.size() * 1000 + std::min<u64>(999, b->st->writes - a->st->writes))); sim_count("probe_writes_merged", b->st->writes - a->st->writes);
    for (auto &t : a->st->wcount) sim_state(mix64((u64)(t.first.first + 500) << 40 | (u64)(t.first.second + 500) << 20 | t.second));
    surf_unref(a); surf_unref(b); al_check_heap("end");
}
static RegProp reg({"C02", "ra", gen, exec});
