// C14: symmetry paints every replica where its geometry says.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); if (p.cfg["init"] == 1) p.cfg["init"] = 5; p.cfg["threadsafe"] = r.chance(0.3); if (p.cfg["threadsafe"] != 0) gen_sched(r, p, 4);
    if (r.chance(0.15)) { p.cfg["cfail"] = 1; p.cfg["cfail_at"] = r.range(0, 12); }
    double area = r.pick(std::vector<double>{12, 40, 80}); int n = r.range(3, tier ? 30 : 14); int maxl = r.chance(0.35) ? 45 : 9; bool oom = r.chance(0.4);
    CanvasGen g; g.dab.area = area; g.maxlines = maxl;
    auto dab = [&]() { Dab d; DabGen dg; dg.area = area; dg.rmin = 4; dg.rmax = 14; dg.blends = false; dg.paint = false; d = gen_dab(r, dg); d.hardness = (float)r.uni(0.1, 0.6); d.softness = r.chance(0.8) ? 0 : (float)r.uni(0, 0.4); d.opaque = (float)r.uni(0.2, 1); d.ratio = r.chance(0.4) ? 1 : (float)r.uni(1, 3); if (r.chance(0.2)) d.lock = 1; if (r.chance(0.06)) d.opaque = 0; if (r.chance(0.04)) d.radius = 0.05f; p.add("dab", dab_args(d)); };
    auto change = [&]() { // a new state, or the last one with a single parameter changed
        gen_symm_op(r, p, g); Op &o = p.ops.back(); if (r.chance(0.55)) { const Op *last = 0; for (auto &q : p.ops) if (&q != &o && q.k == "symm") last = &q; if (last) { o.a = last->a; if (r.chance(0.6)) o.a[0] = 1; int f = r.range(0, 7); if (f == 5 && o.a[4] < 3) f = 4; if (f == 0) o.a[0] = !o.a[0]; else if (f == 1) o.a[1] += r.pick(std::vector<double>{3, 0.375, 30}); else if (f == 2) o.a[2] -= r.pick(std::vector<double>{5, 0.375, 30}); else if (f == 3) o.a[3] += r.pick(std::vector<double>{15, 1, 90, -360}); else if (f == 4) o.a[4] = r.chance(0.5) ? r.range(3, 4) : r.range(0, 4); else o.a[5] += r.chance(0.5) ? 1 : -1; } } };
    if (r.chance(0.8)) gen_symm_op(r, p, g); p.add("begin");
    for (int i = 0; i < n; i++) {
        double u = r.u();
        if (u < 0.22) { p.add("end"); if (r.chance(0.6)) change(); p.add("begin", {(double)(oom && r.chance(0.5) ? r.range(1, 3) : 0)}); dab(); }
        else if (u < 0.42) { change(); if (r.chance(0.7)) dab(); }
        else dab();
    }
    p.add("end");
}
struct Sy { int type = 0; float cx = 0, cy = 0, ang = 0; int n = 2; bool operator==(const Sy &o) const { return type == o.type && cx == o.cx && cy == o.cy && ang == o.ang && n == o.n; } };
struct TD { Dab d; bool active; };
static const double RAD = 3.14159265358979323846 / 180;
static Dab reflect(const Dab &d, const Sy &s, double phi) { Dab e = d; double x = (double)d.x - s.cx, y = (double)d.y - s.cy, c = cos(2 * phi * RAD), n = sin(2 * phi * RAD); e.x = (float)(c * x + n * y + s.cx); e.y = (float)(n * x - c * y + s.cy); e.angle = (float)fmod(2 * phi - d.angle, 360); return e; }
static Dab rotate(const Dab &d, const Sy &s, double rho) { Dab e = d; double x = (double)d.x - s.cx, y = (double)d.y - s.cy, c = cos(rho * RAD), n = sin(rho * RAD); e.x = (float)(c * x - n * y + s.cx); e.y = (float)(n * x + c * y + s.cy); e.angle = (float)fmod(d.angle + rho, 360); return e; }
static std::vector<Dab> group(const Dab &d, const Sy &s) {
    std::vector<Dab> v{d}; double a = s.ang;
    if (s.type == MYPAINT_SYMMETRY_TYPE_VERTICAL) v.push_back(reflect(d, s, -a - 90));
    if (s.type == MYPAINT_SYMMETRY_TYPE_HORIZONTAL) v.push_back(reflect(d, s, -a));
    if (s.type == MYPAINT_SYMMETRY_TYPE_VERTHORZ) { v.push_back(reflect(d, s, -a)); v.push_back(rotate(d, s, 180)); v.push_back(reflect(d, s, -a - 90)); }
    if (s.type == MYPAINT_SYMMETRY_TYPE_SNOWFLAKE) for (int i = 0; i < s.n; i++) v.push_back(reflect(d, s, -a - i * 180.0 / s.n));
    if (s.type == MYPAINT_SYMMETRY_TYPE_SNOWFLAKE || s.type == MYPAINT_SYMMETRY_TYPE_ROTATIONAL) for (int i = 1; i < s.n; i++) v.push_back(rotate(d, s, -i * 360.0 / s.n));
    return v;
}
static std::string sy_str(const Sy &s) { char b[160]; snprintf(b, sizeof b, "type %d centre %g,%g angle %g lines %d", s.type, s.cx, s.cy, s.ang, s.n); return b; }
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); if (c.init == 1) c.init = 5; rt_set_threads(std::max(1, p.ci("threads", 1))); SimSurface *A = 0;
    Sy cur, pend; bool active = false; std::vector<Sy> start{cur};
    if (p.ci("cfail")) { u64 f0 = al_injected(); al_inject(al_calls() + std::max(0, p.ci("cfail_at")), 1, 0, 0); A = surf_new(c); al_inject_off(); if (A && !A->parent.operation_queue) { surf_unref(A); A = 0; } if (A && al_injected() > f0) { Sy none; none.type = -1; start.push_back(none); } }
    if (!A) A = surf_new(c);
    c.threadsafe = false; SimSurface *B = surf_new(c); CHECK(A && B, "harness", "no surface"); Store &a = *A->st, &b = *B->st; int ts = a.ts;
    std::vector<Sy> cand; std::vector<TD> tr; bool open = false; u64 reps = 0, pended = 0, ntr = 0, oomtr = 0, toggled = 0; double work = 0; Sy lastset = cur;
    auto compare = [&](std::string &why) {
        std::set<TI> all; for (auto &t : a.tiles) all.insert(t.first); for (auto &t : b.tiles) all.insert(t.first);
        for (auto &t : all) { auto &x = a.tile(t).px, &y = b.tile(t).px; if (x == y) continue; for (int i = 0; i < ts * ts * 4; i++) if (abs((int)x[i] - (int)y[i]) > 220) { char m[200]; snprintf(m, sizeof m, "pixel (%d,%d) channel %d is %d, expected %d", t.first * ts + i / 4 % ts, t.second * ts + i / 4 / ts, i % 4, x[i], y[i]); why = m; return false; } }
        return true; };
    auto begin = [&](int oom) {
        u64 f0 = al_injected(); if (oom == 1) al_inject(al_calls(), 1000000, 0, 0); else if (oom == 2) al_inject(al_calls(), 1, 0, 0); else if (oom == 3) al_inject(al_calls() + 1, 1, 0, 0);
        L_begin(IF(A)); al_inject_off(); bool failed = al_injected() > f0; open = true; tr.clear(); cand.clear();
        if (failed) { cand = start; oomtr++; bool have = false; for (auto &s : cand) have |= s == pend; if (!have) cand.push_back(pend); } else cand = {pend}; };
    auto end = [&]() {
        if (!open) return; L_end(IF(A)); a.idle("end_atomic"); open = false; if (tr.empty()) { start = cand; return; }
        Snap before = b.snap(); std::string why, first; std::vector<Sy> ok; Snap good;
        for (auto &s : cand) {
            b.tiles.clear(); for (auto &t : before) b.tiles[t.first].px = t.second;
            L_begin(IF(B)); for (auto &t : tr) { if (t.active) for (auto &e : group(t.d, s)) L_draw(IF(B), e); else L_draw(IF(B), t.d); } L_end(IF(B));
            if (compare(why)) { if (ok.empty()) good = b.snap(); ok.push_back(s); } else if (first.empty()) first = why;
        }
        if (ok.empty()) { const TD &t = tr[0]; sim_fail("replica-wrong", "transaction %llu (%zu dabs, first %s, symmetry %s, %s%s; %s): %s", (unsigned long long)ntr + 1, tr.size(), dab_str(t.d).c_str(), t.active ? "on" : "off", sy_str(cand[0]).c_str(), cand.size() > 1 ? " or the one before" : "", lastset == cand[0] ? "as last set" : "pending for the next transaction or refused", first.c_str()); }
        // go on from the library's own pixels, so that rounding does not add up
        b.tiles.clear(); for (auto &t : a.tiles) b.tiles[t.first].px = t.second.px; start = ok; ntr++; sim_hash(store_hash(a)); };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(); begin(o.iarg(0)); } else if (o.k == "end") end();
        else if (o.k == "symm") {
            float cx = (float)std::max(-500.0, std::min(500.0, o.arg(1))), cy = (float)std::max(-500.0, std::min(500.0, o.arg(2))); int n = std::max(0, std::min(64, o.iarg(5))), type = std::max(0, std::min(4, o.iarg(4)));
            bool was = active; active = o.iarg(0) != 0; toggled += was != active && open; L_symm(A, active, cx, cy, (float)o.arg(3), type, n); Sy s; s.type = type; s.cx = cx; s.cy = cy; s.ang = (float)o.arg(3); s.n = std::max(2, n); if (open && active && !(s == pend)) pended++; pend = lastset = s; }
        else if (o.k == "dab") {
            Dab d = dab_from(o); if (!(d.radius <= 20) || !(d.hardness <= 0.8f)) continue; if (!open) begin(0);
            double w = 0; for (auto &s : cand) w = std::max(w, (active ? group(d, s).size() : 1) * (double)d.radius * d.radius * 4); if (work + w > 150000) continue; work += w;
            L_draw(IF(A), d); tr.push_back({d, active}); if (active && !nodraw(d)) for (auto &s : cand) { reps += group(d, s).size() - 1; sim_state(mix64(s.type * 100 + s.n) + (int)(s.ang / 10)); } }
    }
    end(); if (reps) sim_nontrivial(); sim_count("probe_replicas", reps); sim_count("probe_pending_inside_transaction", pended); sim_count("probe_toggled_inside_transaction", toggled); sim_count("probe_transactions_short_of_memory", oomtr);
    surf_unref(A); surf_unref(B); al_check_heap("end");
}
static RegProp reg({"C14", "ra", gen, exec});
