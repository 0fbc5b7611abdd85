// C22: what a brush paints depends on its settings, not on how they were set.
#include "brush.h"
enum { NS = MYPAINT_BRUSH_SETTINGS_COUNT, NI = MYPAINT_BRUSH_INPUTS_COUNT };
static void curve(Rng &r, std::vector<double> &a, int in, double lo, double hi, int k) { const MyPaintBrushInputInfo *ii = mypaint_brush_input_info((MyPaintBrushInput)in); std::vector<double> xs; for (int j = 0; j < k; j++) xs.push_back(f32(r.uni(ii->soft_min, ii->soft_max))); std::sort(xs.begin(), xs.end()); for (int j = 0; j < k; j++) { a.push_back(xs[j]); a.push_back(j && r.chance(0.25) ? a[a.size() - 2] : f32(r.uni(lo, hi))); } tame_map(a); }
static std::string num9(double v) { char b[40]; snprintf(b, sizeof b, "%.9g", (double)(float)v); return b; }
static void gen(Rng &r, Plan &p, int tier) {
    p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20); p.cfg["random"] = r.chance(0.3); BrushGen g; g.random = p.ci("random"); g.gridmap_dyn = r.chance(0.3); gen_brush(r, p, g);
    std::vector<Op> base = p.ops; p.ops.clear(); for (auto &o : base) if (o.k == "map" && r.chance(0.06)) { o.a.resize(2); curve(r, o.a, (int)o.a[1], -0.3, 0.3, r.chance(0.5) ? 64 : r.range(20, 63)); }
    if (r.chance(0.25)) for (int k = 0; k < 2; k++) { int g = k ? SET(SPEED2_GAMMA) : SET(SPEED1_GAMMA), in = k ? MYPAINT_BRUSH_INPUT_SPEED2 : MYPAINT_BRUSH_INPUT_SPEED1; Op q; q.k = "set"; q.a = {(double)g, f32(r.uni(-8, 8))}; base.push_back(q); Op m; m.k = "map"; m.a = {(double)r.pick(std::vector<int>{SET(RADIUS_LOGARITHMIC), SET(HARDNESS), SET(OPAQUE), SET(CHANGE_COLOR_H)}), (double)in}; curve(r, m.a, in, -0.3, 0.3, r.range(2, 4)); bool dup = false; for (auto &o : base) dup |= o.k == "map" && o.a[0] == m.a[0] && o.a[1] == m.a[1]; if (!dup) base.push_back(m); }
    if (r.chance(0.15)) { int id = r.range(0, NS - 1), k = r.range(2, 4); while (k--) { Op m; m.k = "map"; m.a = {(double)id, (double)r.range(0, NI - 1)}; if (!p.ci("random") && (int)m.a[1] == MYPAINT_BRUSH_INPUT_RANDOM) continue; if (id == SET(TRACKING_NOISE) || id == SET(RADIUS_BY_RANDOM) || id == SET(OFFSET_BY_RANDOM)) continue; curve(r, m.a, (int)m.a[1], -0.2, 0.2, 3); bool dup = false; for (auto &o : base) dup |= o.k == "map" && o.a[0] == m.a[0] && o.a[1] == m.a[1]; if (!dup) base.push_back(m); } }
    if (r.chance(0.3)) for (auto &o : base) if (o.k == "map") for (size_t i = 3; i < o.a.size(); i += 2) o.a[i] = f32(std::floor(o.a[i] * 10) / 10); std::vector<std::pair<int, int>> used; for (auto &o : base) if (o.k == "map") used.push_back({(int)o.a[0], (int)o.a[1]});
    EvState es; EvGen eg; eg.gap5 = 0.01; int rounds = r.range(1, tier ? 5 : 3);
    auto shuffle_edits = [&]() {
        if (r.chance(0.2)) { int id = r.range(0, NS - 1); std::vector<int> ins; for (int i = 0; i < NI; i++) if (r.chance(0.8)) ins.push_back(i); for (int in : ins) { Op m; m.k = "map"; m.a = {(double)id, (double)in}; curve(r, m.a, in, -0.2, 0.2, r.range(2, 4)); p.ops.push_back(m); } if (r.chance(0.8)) { if (r.chance(0.5)) std::reverse(ins.begin(), ins.end()); int keep = r.chance(0.5) ? 0 : r.range(0, 2); for (size_t i = 0; i + keep < ins.size(); i++) p.add("n", {(double)id, (double)ins[i], 0}); } }
        for (auto &o : base) {
            if (o.k == "set" && r.chance(0.4)) { Op q = o; q.a[1] = f32(r.uni(0, 1)); p.ops.push_back(q); }
            if (o.k == "map" && r.chance(0.4)) { Op q; q.k = "map"; q.a = {o.a[0], o.a[1]}; curve(r, q.a, (int)o.a[1], -0.3, 0.3, r.chance(0.1) ? r.pick(std::vector<int>{32, 63, 64}) : r.chance(0.4) ? (int)(o.a.size() - 2) / 2 : r.range(2, 9)); if (r.chance(0.3)) for (size_t i = 3; i < q.a.size(); i += 2) q.a[i] = f32(std::floor(q.a[i] * 10) / 10); p.ops.push_back(q); if (r.chance(0.4)) p.add("map", {o.a[0], o.a[1]}); }
            if (o.k == "defaults" && !r.chance(0.8)) continue;
            p.ops.push_back(o); if (r.chance(0.1)) p.ops.push_back(o); if (o.k == "map" && r.chance(0.3)) { int n = (o.a.size() - 2) / 2, i = r.range(0, n - 1); p.add("point", {o.a[0], o.a[1], (double)i, o.a[2 + 2 * i], f32(o.a[3 + 2 * i] + r.uni(-0.1, 0.1))}); }
            if (o.k == "map" && r.chance(0.25)) { p.add("n", {o.a[0], o.a[1], 0}); if (r.chance(0.6)) p.ops.push_back(o); }
            if (r.chance(0.05)) { // a document with a few settings
                std::string d = "{\"version\":3,\"settings\":{"; int k = r.range(1, 4); for (int j = 0; j < k; j++) { Op &s = base[r.range(0, base.size() - 1)]; if (s.k != "set" && s.k != "map") continue; int id = (int)s.a[0]; if (d.back() == '}') d += ","; d += std::string("\"") + SET_NAME(id) + "\":{\"base_value\":" + num9(s.k == "set" ? s.a[1] : 0.25) + ",\"inputs\":{"; if (s.k == "map") { d += std::string("\"") + mypaint_brush_input_info((MyPaintBrushInput)(int)s.a[1])->cname + "\":["; for (size_t q = 2; q + 1 < s.a.size(); q += 2) d += (q > 2 ? ",[" : "[") + num9(s.a[q]) + "," + num9(s.a[q + 1]) + "]"; d += "]"; } d += "}}"; }
                d += "}}"; p.add("doc", {}, d); }
        } };
    for (int k = 0; k < rounds; k++) { shuffle_edits(); if (r.chance(0.2)) { p.add("alldefaults"); if (r.chance(0.7)) shuffle_edits(); } int n = r.range(2, tier ? 40 : 20); p.add("stroke"); for (int i = 0; i < n; i++) { p.add("ev", ev_args(gen_ev(r, es, eg))); if (r.chance(0.05)) shuffle_edits(), p.add("stroke"); } if (r.chance(0.3)) p.add("reset"); }
}
struct M { float base[NS]; std::vector<std::pair<float, float>> c[NS][NI]; void clear() { for (int s = 0; s < NS; s++) { base[s] = 0; for (auto &v : c[s]) v.clear(); } } void defaults() { clear(); for (int s = 0; s < NS; s++) base[s] = mypaint_brush_setting_info((MyPaintBrushSetting)s)->def; c[SET(OPAQUE_MULTIPLY)][MYPAINT_BRUSH_INPUT_PRESSURE] = {{0.f, 0.f}, {1.f, 1.f}}; } };
static void verify(MyPaintBrush *b, M &m, const char *when) {
    for (int s = 0; s < NS; s++) {
        InLib l; auto id = (MyPaintBrushSetting)s; float v = mypaint_brush_get_base_value(b, id); CHECK(feq(v, m.base[s]), "query-base", "after %s: base value of %s is %.9g, was set to %.9g", when, SET_NAME(s), v, m.base[s]); int used = 0;
        for (int i = 0; i < NI; i++) { auto in = (MyPaintBrushInput)i; int n = mypaint_brush_get_mapping_n(b, id, in); CHECK(n == (int)m.c[s][i].size(), "query-curve", "after %s: curve of %s over input %d has %d points, was given %zu", when, SET_NAME(s), i, n, m.c[s][i].size()); used += n > 0; for (int k = 0; k < n; k++) { float x = -9, y = -9; mypaint_brush_get_mapping_point(b, id, in, k, &x, &y); CHECK(x == m.c[s][i][k].first && y == m.c[s][i][k].second, "query-curve", "after %s: point %d of %s over input %d is (%.9g,%.9g), was set to (%.9g,%.9g)", when, k, SET_NAME(s), i, x, y, m.c[s][i][k].first, m.c[s][i][k].second); } }
        int u = mypaint_brush_get_inputs_used_n(b, id); CHECK(u == used, "query-inputs-used", "after %s: %s reports %d inputs in use, %d have curves", when, SET_NAME(s), u, used); int k = mypaint_brush_is_constant(b, id); CHECK(!!k == (used == 0), "query-constant", "after %s: %s reported constant=%d with %d curves", when, SET_NAME(s), k, used);
    } }
// reads the simple documents written by gen, into the model
static bool load(M &m, const std::string &d);
static void exec(const Plan &p) {
    MyPaintBrush *a = brush_new(0), *b = brush_new(0); M m, mb; m.clear(); mb.clear(); static M scratch; RecSurface *ra = rec_new(p.ci("rec"), (u64)p.c("rseed")), *rb = rec_new(p.ci("rec"), (u64)p.c("rseed")); u64 id = 0, edits = 0, dabs = 0; verify(a, m, "construction");
    auto sync = [&](bool rebuild) { // the other brush gets the same settings the direct way
        InLib l; for (int s = 0; s < NS; s++) { if (m.base[s] != mb.base[s]) mypaint_brush_set_base_value(b, (MyPaintBrushSetting)s, m.base[s]); for (int i = 0; i < NI; i++) if (m.c[s][i] != mb.c[s][i]) { mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, m.c[s][i].size()); for (size_t k = 0; k < m.c[s][i].size(); k++) mypaint_brush_set_mapping_point(b, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, m.c[s][i][k].first, m.c[s][i][k].second); } } mb = m; };
    bool dirty = true;
    for (auto &o : p.ops) {
        int s = o.iarg(0), i = o.iarg(1); bool si = s >= 0 && s < NS && i >= 0 && i < NI;
        if (o.k == "defaults" || o.k == "alldefaults") { apply_brush_op(a, Op{"defaults"}); m.defaults(); edits++; dirty = true; }
        else if (o.k == "set" && s >= 0 && s < NS) { apply_brush_op(a, o); m.base[s] = (float)o.arg(1); edits++; dirty = true; }
        else if (o.k == "map" && si) { int n = (int)(o.a.size() - 2) / 2; if (n == 1 || n > 64) continue; bool ok = true; for (int k = 1; k < n; k++) ok &= (float)o.arg(2 + 2 * k) >= (float)o.arg(2 * k); if (!ok) continue; apply_brush_op(a, o); auto &c = m.c[s][i]; c.clear(); for (int k = 0; k < n; k++) c.push_back({(float)o.arg(2 + 2 * k), (float)o.arg(3 + 2 * k)}); edits++; dirty = true; }
        else if (o.k == "n" && si) { InLib l; mypaint_brush_set_mapping_n(a, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, 0); m.c[s][i].clear(); dirty = true; }
        else if (o.k == "point" && si) { auto &c = m.c[s][i]; int k = o.iarg(2); float x = (float)o.arg(3); if (k < 0 || k >= (int)c.size() || (k > 0 && x < c[k - 1].first) || (k + 1 < (int)c.size() && x > c[k + 1].first)) continue; InLib l; mypaint_brush_set_mapping_point(a, (MyPaintBrushSetting)s, (MyPaintBrushInput)i, k, x, (float)o.arg(4)); c[k] = {x, (float)o.arg(4)}; dirty = true; }
        else if (o.k == "doc") { scratch = m; if (!load(scratch, o.s)) continue; sim_note("from_string"); bool ok; { InLib l; ok = mypaint_brush_from_string(a, o.s.c_str()); } CHECK(ok || o.s.find("base_value") == std::string::npos, "doc-refused", "a valid document was refused: %s", o.s.c_str()); m = scratch; sim_count("probe_documents_loaded"); dirty = true; }
        else if (o.k == "reset") { InLib l; mypaint_brush_reset(a); mypaint_brush_reset(b); }
        else if (o.k == "stroke" || o.k == "ev") {
            if (dirty) { verify(a, m, "editing"); sync(false); verify(b, m, "setting everything once"); dirty = false; }
            if (o.k == "ev") { Ev e = ev_from(o); if (!(std::fabs(e.x) < 1e5f) || !(std::fabs(e.y) < 1e5f) || dabs > 30000) continue; int x = R_ev(a, ra, e, id), y = R_ev(b, rb, e, id); id++; state_of(a); std::string d = diff_dabs(*ra->dabs, *rb->dabs); CHECK(d.empty(), "edit-history-dabs", "two brushes with equal settings paint differently at %s: %s", ev_str(e).c_str(), d.c_str()); CHECK(x == y, "edit-history-dabs", "stroke_to returned %d and %d", x, y); dabs += ra->dabs->size(); ra->dabs->clear(); rb->dabs->clear(); }
        }
    }
    verify(a, m, "the history"); if (dabs && edits > 3) sim_nontrivial(); sim_count("probe_edits", edits); sim_count("probe_dabs", dabs); B_unref(a); B_unref(b); rec_free(ra); rec_free(rb);
}
static bool load(M &m, const std::string &d) { // exactly the shape gen writes; anything else (after minimisation) is skipped
    size_t i = 0; auto lit = [&](const char *t) { size_t n = strlen(t); if (d.compare(i, n, t)) return false; i += n; return true; }; auto str = [&](std::string &o) { if (i >= d.size() || d[i] != '"') return false; size_t e = d.find('"', i + 1); if (e == std::string::npos) return false; o = d.substr(i + 1, e - i - 1); i = e + 1; return true; };
    auto number = [&](float &v) { const char *s = d.c_str() + i; char *e; if (!strchr("-0123456789", *s) || !*s) return false; v = (float)strtod(s, &e); if (e == s) return false; i = e - d.c_str(); return true; };
    if (!lit("{\"version\":3,\"settings\":{")) return false; std::string k; bool first = true; std::set<int> seen;
    while (i < d.size() && d[i] != '}') {
        if (!first && !lit(",")) return false; first = false; if (!str(k) || !lit(":{\"base_value\":")) return false; int id = -1; for (int s = 0; s < NS; s++) if (k == SET_NAME(s)) id = s; if (id < 0) return false; float v; if (!number(v) || !lit(",\"inputs\":{")) return false; bool again = !seen.insert(id).second; if (again) return false; m.base[id] = v;
        if (i < d.size() && d[i] == '"') { std::string in; if (!str(in) || !lit(":[")) return false; int ii = -1; for (int q = 0; q < NI; q++) if (in == mypaint_brush_input_info((MyPaintBrushInput)q)->cname) ii = q; if (ii < 0) return false; std::vector<std::pair<float, float>> c; while (i < d.size() && d[i] != ']') { if (!c.empty() && !lit(",")) return false; float x, y; if (!lit("[") || !number(x) || !lit(",") || !number(y) || !lit("]")) return false; if (!c.empty() && x < c.back().first) return false; c.push_back({x, y}); } if (!lit("]") || c.size() == 1 || c.size() > 64) return false; m.c[id][ii] = c; }
        if (!lit("}}")) return false;
    }
    return lit("}}") && i == d.size();
}
static RegProp reg({"C22", "ra", gen, exec});
