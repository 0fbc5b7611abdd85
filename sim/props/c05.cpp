// C05: a failing tile store loses at most the affected work.
#include "canvas.h"
static void gen(Rng &r, Plan &p, int tier) {
    gen_store(r, p); p.cfg["threadsafe"] = r.chance(0.4); if (p.cfg["threadsafe"]) gen_sched(r, p, 5, 0.1);
    p.cfg["p_fail"] = r.chance(0.7) ? f32(r.uni(0.03, 0.4)) : 0; p.cfg["fseed"] = r.range(1, 1 << 30); p.cfg["fstop"] = r.chance(0.3);
    CanvasGen g; g.nmin = 4; g.nmax = tier ? 40 : 20; g.dab.area = r.pick(std::vector<double>{6, 20, 35}); g.dab.rmax = r.pick(std::vector<double>{4, 12, 22}); g.symm = r.chance(0.2); g.maxlines = 4; g.p_pick = r.pick(std::vector<double>{0.1, 0.35}); g.p_end = 0.25; g.pick_rmax = r.pick(std::vector<double>{3, 25}); g.spread = r.chance(0.1);
    Plan q = p; gen_canvas(r, q, g); bool sy = false; int nb = 0;
    for (auto &o : q.ops) { if (o.k == "symm") { if (sy) continue; sy = true; } p.ops.push_back(o); if (o.k == "begin" || r.chance(0.1)) { if (r.chance(0.25)) p.add(r.chance(0.7) ? "failtile" : "failall", {(double)r.range(-2, 2), (double)r.range(-2, 2), (double)(nb++ & 1 ? 0 : 1)}); } }
    if (sy) { std::vector<Op> o2; Op so; for (auto &o : p.ops) if (o.k == "symm") so = o; o2.push_back(so); for (auto &o : p.ops) if (o.k != "symm") o2.push_back(o); p.ops = o2; }
    p.add("heal"); p.add("begin"); for (int i = 0; i < 4; i++) p.add("dab", dab_args(gen_dab(r, g.dab))); p.add("end", {1.0});
}
struct Cand { std::vector<u16> px; std::vector<Dab> carry; };
static void exec(const Plan &p) {
    StoreCfg c = store_cfg(p); StoreCfg rc = c; rc.mode = 0; rc.threadsafe = false; rc.protocol = false; u64 live0 = al_live_blocks();
    c.p_fail = p.c("p_fail"); c.fail_seed = (u64)p.c("fseed"); SimSurface *s = surf_new(c), *ref = surf_new(rc); Store &st = *s->st; bool open = false, ropen = false; (void)ropen;
    std::vector<Dab> hist; std::map<TI, std::vector<Cand>> cand; std::map<TI, size_t> from; size_t wl = 0; u64 fails = 0, compared = 0; std::map<TI, std::set<size_t>> touched; int ts = st.ts; bool symm = false;
    auto apply = [&](const std::vector<u16> &px, TI t, const std::vector<Dab> &a, size_t f, size_t n) -> std::vector<u16> {
        if (a.empty() && f >= n) return px; ref->st->tiles.clear(); ref->st->tile(t).px = px; int th = rt_get_max_threads(); rt_set_threads(1); { InLib l; mypaint_surface_begin_atomic(IF(ref)); for (auto &d : a) mypaint_surface_draw_dab(IF(ref), d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.ratio, d.angle, d.lock, d.colorize, d.posterize, d.posterize_num, d.paint);
            for (size_t i = f; i < n; i++) { const Dab &d = hist[i]; mypaint_surface_draw_dab(IF(ref), d.x, d.y, d.radius, d.r, d.g, d.b, d.opaque, d.hardness, d.softness, d.a, d.ratio, d.angle, d.lock, d.colorize, d.posterize, d.posterize_num, d.paint); } mypaint_surface_end_atomic(IF(ref), 0); }
        rt_set_threads(th); return ref->st->tile(t).px; };
    auto get = [&](TI t) -> std::vector<Cand> & { auto it = cand.find(t); if (it != cand.end()) return it->second; Cand k; k.px.resize(ts * ts * 4); for (int i = 0; i < ts * ts; i++) st.pixel(t.first * ts + i % ts, t.second * ts + i / ts, &k.px[i * 4]); cand[t].push_back(k); return cand[t]; };
    auto settle = [&](const char *when, bool full) {
        st.idle(when); std::set<TI> seen;
        for (; wl < st.wlog.size(); wl++) {
            TI t = st.wlog[wl].first; bool ok = st.wlog[wl].second; auto &v = get(t); size_t f = from[t]; std::vector<Cand> nv;
            for (auto &k : v) { if (ok) nv.push_back({apply(k.px, t, k.carry, f, hist.size()), {}}); else { nv.push_back({k.px, {}}); Cand q = k; q.carry.insert(q.carry.end(), hist.begin() + f, hist.end()); if (!q.carry.empty() && q.carry.size() < 40) nv.push_back(q); } }
            if (!ok) fails++; from[t] = hist.size(); std::vector<Cand> uq; for (auto &k : nv) { bool dup = false; for (auto &m : uq) dup |= m.px == k.px && m.carry.size() == k.carry.size() && (k.carry.empty() || !memcmp(m.carry.data(), k.carry.data(), k.carry.size() * sizeof(Dab))); if (!dup) uq.push_back(k); } v = uq; seen.insert(t);
            if (v.size() > 40) v.resize(40);
        }
        auto cmp = [&](TI t, const char *cls, bool pend) {
            auto &v = get(t); const std::vector<u16> *now = 0; std::vector<u16> init; auto it = st.tiles.find(t); if (it != st.tiles.end()) now = &it->second.px; else { init = get(t)[0].px; for (int i = 0; i < ts * ts; i++) st.pixel(t.first * ts + i % ts, t.second * ts + i / ts, &init[i * 4]); now = &init; }
            std::vector<Cand> keep; for (auto &k : v) if ((pend ? apply(k.px, t, k.carry, from[t], hist.size()) : k.px) == *now) keep.push_back(k);
            compared++; if (keep.empty()) sim_fail(cls, "tile (%d,%d) after %s holds none of the %zu contents possible when failed requests lose (or delay) exactly the work queued for that tile; %llu requests failed so far on it", t.first, t.second, when, v.size(), (unsigned long long)st.seen_fail[t]); v = keep; };
        for (auto &t : seen) cmp(t, "failed-tile-content", false);
        if (full) { // the end of a transaction: everything queued for working tiles must be there
            std::set<TI> at; for (auto &x : touched) at.insert(x.first);
            for (auto &t : at) { bool p2 = from[t] < hist.size() && !seen.count(t); bool any = false; for (auto i : touched[t]) any |= i >= from[t]; if (p2 && any) cmp(t, "work-lost", true); from[t] = hist.size(); }
            for (auto &t : st.tiles) if (!seen.count(t.first)) { cmp(t.first, "tile-changed-unasked", false); } touched.clear();
            for (auto &t : from) t.second = hist.size(); for (auto &t : st.tiles) from[t.first] = hist.size();
        } };
    size_t base = 0; (void)base;
    auto begin = [&]() { if (!open) { L_begin(IF(s)); open = true; } }; auto end = [&]() { if (open) { L_end(IF(s)); open = false; settle("end_atomic", true); for (auto &k : cand) from[k.first] = hist.size(); hist.clear(); for (auto &k : from) k.second = 0; } };
    for (auto &o : p.ops) {
        if (o.k == "begin") { end(); begin(); } else if (o.k == "end") end();
        else if (o.k == "dab") { begin(); Dab d = dab_from(o); L_draw(IF(s), d); hist.push_back(d); if (!symm) { double R = std::min(300.f, d.radius) + 1; for (int y = (int)std::floor((d.y - R) / ts); y <= (int)std::floor((d.y + R) / ts); y++) for (int x = (int)std::floor((d.x - R) / ts); x <= (int)std::floor((d.x + R) / ts); x++) touched[{x, y}].insert(hist.size() - 1); } settle("draw_dab", false); }
        else if (o.k == "pick") { rt_set_rand(0, (u64)o.arg(4, 1)); Col k = L_pick(IF(s), (float)o.arg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3)); CHECK(k.r >= 0 && k.r <= 1 && k.g >= 0 && k.g <= 1 && k.b >= 0 && k.b <= 1 && k.a >= 0 && k.a <= 1, "pick-invalid", "pickup returned %g,%g,%g,%g", k.r, k.g, k.b, k.a); settle("get_color", false); }
        else if (o.k == "symm") { if (symm || hist.size()) continue; end(); symm = true; for (SimSurface *z : {s, ref}) L_symm(z, o.iarg(0), (float)o.arg(1), (float)o.arg(2), (float)o.arg(3), o.iarg(4), o.iarg(5)); }
        else if (o.k == "failtile") { TI t{o.iarg(0), o.iarg(1)}; if (o.iarg(2)) st.fail_tiles.insert(t); else st.fail_tiles.clear(); }
        else if (o.k == "failall") st.fail_all = o.iarg(2) != 0;
        else if (o.k == "heal") { st.fail_tiles.clear(); st.fail_all = false; st.cfg.p_fail = 0; }
    }
    end(); if (fails) sim_nontrivial(); sim_count("probe_tiles_compared", compared); sim_hash(store_hash(st)); sim_state(mix64(fails * 1000 + st.failed)); for (auto &t : st.seen_fail) sim_state(mix64((u64)(t.first.first + 99) << 30 | (u64)(t.first.second + 99) << 10 | t.second));
    surf_unref(s); surf_unref(ref); al_check_heap("end"); CHECK(al_live_blocks() == live0, "leak", "%lld blocks still allocated after the surface was destroyed: %s", (long long)(al_live_blocks() - live0), al_describe_live(6).c_str());
}
static RegProp reg({"C05", "ra", gen, exec});
