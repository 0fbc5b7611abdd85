// C20: smudge buckets hold independent colours.
#include "brush.h"
static void gen(Rng &r, Plan &p, int tier) {
    int nb = r.pick(std::vector<int>{0, 1, 2, 3, 5, 9, 64, 256}); p.cfg["buckets"] = nb; p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20);
    BrushGen g; g.rlog_max = 2.5; gen_brush(r, p, g); p.add("set", {(double)SET(SMUDGE), f32(r.uni(0.1, 1))}); p.add("set", {(double)SET(SMUDGE_LENGTH), f32(r.uni(0, 0.99))}); if (r.chance(0.5)) p.add("set", {(double)SET(PAINT_MODE), f32(r.chance(0.5) ? 0 : r.u())}); p.add("set", {(double)SET(SMUDGE_BUCKET), 0}); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) p.add("map", {(double)SET(SMUDGE_BUCKET), (double)i});
    EvState es; EvGen eg; eg.area = 50; eg.gap5 = 0.01; int n = r.range(8, tier ? 100 : 50);
    auto idx = [&]() -> double { double u = r.u(); if (u < 0.15) return r.pick(std::vector<int>{-1, -2, -1000000, INT32_MIN}); if (u < 0.3) return nb + r.pick(std::vector<int>{0, 1, 1000000}); if (u < 0.5) return nb ? r.pick(std::vector<int>{0, nb - 1}) : 0; return r.range(0, std::max(0, nb - 1)); };
    for (int i = 0; i < n; i++) {
        double u = r.u(); if (u < 0.2) p.add("write", {idx(), (double)r.range(1, 1 << 20)}); else if (u < 0.3) p.add("read", {idx()}); else if (u < 0.45) { double k = idx(); if (std::fabs(k) > 1e5) k = k < 0 ? -300 : 300; p.add("use", {k + (r.chance(0.5) ? 0 : f32(r.uni(-0.49, 0.49)))}); }
        else if (u < 0.48) p.add("reset"); else { int k = r.range(1, 4); for (int j = 0; j < k; j++) { Ev e = gen_ev(r, es, eg); if (e.pressure <= 0 && r.chance(0.6)) e.pressure = 0.5; p.add("ev", ev_args(e)); } }
    }
}
typedef std::vector<float> V;
static void exec(const Plan &p) {
    int nb = std::max(0, std::min(256, p.ci("buckets"))); MyPaintBrush *m = brush_new(nb), *one = brush_new(1); RecSurface *rm = rec_new(p.ci("rec"), (u64)p.c("rseed")), *ro = rec_new(p.ci("rec"), (u64)p.c("rseed"));
    for (auto b : {m, one}) { apply_brush_op(b, Op{"defaults"}); for (auto &o : p.ops) if (is_brush_op(o)) apply_brush_op(b, o); InLib l; mypaint_brush_set_base_value(b, SET(SMUDGE_BUCKET), 0); for (int i = 0; i < MYPAINT_BRUSH_INPUTS_COUNT; i++) mypaint_brush_set_mapping_n(b, SET(SMUDGE_BUCKET), (MyPaintBrushInput)i, 0); }
    std::vector<V> model(std::max(1, nb), V(9, 0.f)); std::set<int> must, may; int use = 0; u64 id = 0, evs = 0, switches = 0, changed = 0; size_t k0 = 0; bool reset = true;
    auto verify = [&](const char *when) {
        float v[9]; for (int i = 0; i < nb; i++) { CHECK(B_bucket(m, i, v), "bucket-refused", "bucket %d of %d refused", i, nb); for (int k = 0; k < 9; k++) CHECK(feq(v[k], model[i][k]), "bucket-content", "after %s: bucket %d value %d is %.9g, expected %.9g (bucket in use for painting: %d)", when, i, k, v[k], model[i][k], use); }
        int lo = LIB(mypaint_brush_get_min_smudge_bucket_used(m)), hi = LIB(mypaint_brush_get_max_smudge_bucket_used(m)); std::set<int> a = must; a.insert(may.begin(), may.end());
        bool okl = must.empty() ? (lo == -1 || may.count(lo)) : (lo == *must.begin() || (may.count(lo) && lo < *must.begin())), okh = must.empty() ? (hi == -1 || may.count(hi)) : (hi == *must.rbegin() || (may.count(hi) && hi > *must.rbegin()));
        CHECK(okl && okh && (lo == -1) == (hi == -1) && lo <= hi, "bucket-range", "after %s: buckets used reported as %d..%d, but %d..%d were written", when, lo, hi, must.empty() ? -1 : *must.begin(), must.empty() ? -1 : *must.rbegin()); };
    for (auto &o : p.ops) {
        int i = (int)std::max(-2147483648.0, std::min(2147483647.0, o.arg(0)));
        if (o.k == "write") { Rng r((u64)o.arg(1, 1)); V v(9); for (auto &x : v) x = f32(r.uni(-1, 2)); bool ok = B_setbucket(m, i, v.data()); CHECK(ok == (i >= 0 && i < nb), "bucket-bounds", "writing bucket %d of %d returned %d", i, nb, ok); if (ok) { model[i] = v; must.insert(i); } else sim_count("probe_write_refused"); verify("a write"); }
        else if (o.k == "read") { V v(9, -55.5f); bool ok = B_bucket(m, i, v.data()); CHECK(ok == (i >= 0 && i < nb), "bucket-bounds", "reading bucket %d of %d returned %d", i, nb, ok); if (!ok) for (float x : v) CHECK(x == -55.5f, "bucket-bounds", "a refused read wrote to its outputs"); }
        else if (o.k == "use") { float v = (float)o.arg(0); { InLib l; mypaint_brush_set_base_value(m, SET(SMUDGE_BUCKET), v); } int n = (int)std::max(0.0, std::min((double)std::max(0, nb - 1), (double)std::round(v))); if (n != use) switches++; use = n; }
        else if (o.k == "reset") { InLib l; mypaint_brush_reset(m); mypaint_brush_reset(one); reset = true; }
        else if (o.k == "ev") {
            Ev e = ev_from(o); if (!(std::fabs(e.x) < 1e5f) || !(std::fabs(e.y) < 1e5f)) continue; no_split_event(m, e); bool isreset = reset || e.dt > 5; reset = false;
            if (nb) B_setbucket(one, 0, model[use].data()); V before = model[use]; R_ev(m, rm, e, id); if (nb) { R_ev(one, ro, e, id); std::string d = diff_dabs(*rm->dabs, *ro->dabs, k0, k0); CHECK(d.empty(), "bucket-dabs", "painting with bucket %d of %d differs from a brush with only that bucket at %s: %s", use, nb, ev_str(e).c_str(), d.c_str()); rm->dabs->clear(); ro->dabs->clear(); k0 = 0; }
            id++; evs++;
            if (isreset) { for (auto &v : model) v.assign(9, 0.f); must.clear(); may.clear(); sim_count("probe_resets"); if (nb) { float v[9]; B_bucket(one, 0, v); } }
            else if (nb) { float v[9]; B_bucket(one, 0, v); V now(v, v + 9); may.insert(use); bool ch = false; for (int k = 0; k < 9; k++) ch |= !feq(now[k], before[k]); if (ch) { must.insert(use); changed++; } model[use] = now; }
            verify(isreset ? "a reset" : "painting"); sim_state(mix64(use * 1000 + must.size() * 3 + nb * 100000));
        }
    }
    if (nb == 0) CHECK(LIB(mypaint_brush_get_min_smudge_bucket_used(m)) == -1, "bucket-range", "a brush without buckets reports one as used");
    if (evs && (changed || nb == 0)) sim_nontrivial(); sim_count("probe_bucket_painted", changed); sim_count("probe_bucket_switched", switches); B_unref(m); B_unref(one); rec_free(rm); rec_free(ro); al_check_heap("end");
}
static RegProp reg({"C20", "ra", gen, exec});
