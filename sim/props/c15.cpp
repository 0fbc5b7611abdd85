// C15: a damaged brush document never does damage.
#include "brush.h"
#include <json.h>
enum { NS = MYPAINT_BRUSH_SETTINGS_COUNT, NI = MYPAINT_BRUSH_INPUTS_COUNT, MP = 64 };
// ---------------------------------------------------------------- documents and what storage does to them
static std::string fnum(Rng &r) { char b[60]; double u = r.u(); if (u < 0.3) snprintf(b, sizeof b, "%d", r.range(-3, 9)); else if (u < 0.9) snprintf(b, sizeof b, "%.*f", r.range(1, 12), r.uni(-2, 5)); else snprintf(b, sizeof b, "%.*e", r.range(0, 17), r.uni(-9, 9)); return b; }
static std::string junk(Rng &r, int depth = 0) {
    switch (r.range(0, depth > 2 ? 11 : 15)) { case 0: return "null"; case 1: return "true"; case 2: return "\"\""; case 3: return "\"0.5\""; case 4: return "[]"; case 5: return "{}"; case 6: return "1e999"; case 7: return "-1e39"; case 8: return "NaN"; case 9: return "Infinity"; case 10: return "99999999999999999999999"; case 11: return "\"\\u0000x\"";
        case 12: return "[" + junk(r, depth + 1) + "," + junk(r, depth + 1) + "]"; case 13: return "{\"base_value\":" + junk(r, depth + 1) + "}"; case 14: return "[[0,0],[1]]"; default: return "{\"pressure\":[[0,0],[1,1]]}"; } }
static std::string points(Rng &r, double bad) {
    int n = r.pick(std::vector<int>{0, 2, 2, 2, 3, 4, 8, 64}); if (r.chance(bad)) n = r.pick(std::vector<int>{1, 65, 66, 200, 3}); std::vector<double> x; for (int i = 0; i < n; i++) x.push_back(r.uni(-2, 2)); std::sort(x.begin(), x.end()); if (r.chance(bad) && n > 1) std::swap(x[0], x[n - 1]);
    if (r.chance(0.1) && n > 2) x[1] = x[0];
    std::string s = "["; for (int i = 0; i < n; i++) { if (i) s += r.chance(0.1) ? " , " : ","; char b[80]; snprintf(b, sizeof b, "[%.9g,%s]", x[i], fnum(r).c_str()); std::string q = b; if (r.chance(bad / std::max(1, n / 2))) q = r.pick(std::vector<std::string>{"[]", "[1]", "[0,null]", "[\"a\",1]", "{}", "null", "5", "[[0],1]", "[1e999,0]", "[0,1e60]", "[0,0,0]", "\"x\""}); s += q; }
    return s + "]"; }
static std::string entry(Rng &r, double bad) {
    if (r.chance(bad)) return junk(r);
    std::string s = "{"; auto base = [&]() { s += "\"base_value\":" + (r.chance(bad) ? junk(r) : fnum(r)); }; auto inputs = [&]() { s += "\"inputs\":"; if (r.chance(bad)) { s += junk(r); return; } s += "{"; int k = r.pick(std::vector<int>{0, 0, 1, 1, 2, 4}); for (int i = 0; i < k; i++) { std::string nm = mypaint_brush_input_info((MyPaintBrushInput)r.range(0, NI - 1))->cname; if (r.chance(bad)) nm = r.pick(std::vector<std::string>{"presure", "", "speed9", "\\u0000", "PRESSURE"}); s += (i ? ",\"" : "\"") + nm + "\":" + (r.chance(bad) ? junk(r) : points(r, bad)); } s += "}"; };
    bool nob = r.chance(bad), noi = r.chance(bad); if (r.chance(0.2)) { if (!noi) { inputs(); if (!nob) s += ","; } if (!nob) base(); } else { if (!nob) { base(); if (!noi) s += ","; } if (!noi) inputs(); }
    if (r.chance(0.05)) s += std::string(s.size() > 1 ? "," : "") + "\"note\":" + junk(r); return s + "}"; }
static std::string doc(Rng &r) {
    double bad = r.chance(0.35) ? 0 : r.chance(0.6) ? 0.05 : 0.25; std::string s = "{"; auto nl = [&]() { return std::string(r.chance(0.3) ? "\n    " : ""); };
    std::string ver = "\"version\":" + (r.chance(bad * 0.6) ? r.pick(std::vector<std::string>{"2", "4", "\"3\"", "3.0", "null", "[3]", "-3", "30", "3e0", "true", "4294967299"}) : std::string("3"));
    std::string set = "\"settings\":"; if (r.chance(bad * 0.5)) set += junk(r); else { set += "{"; int n = r.chance(0.1) ? 65 : r.range(0, 8); bool all = n == 65; for (int i = 0; i < n; i++) { std::string nm = SET_NAME(all ? i : r.range(0, NS - 1)); if (r.chance(bad)) nm = r.pick(std::vector<std::string>{"opaqe", "", "version", "settings", "\xff\xfe", "radius", "opaque\\u0000"}); set += (i ? "," : "") + nl() + "\"" + nm + "\":" + entry(r, bad); } set += "}"; }
    std::vector<std::string> parts{ver, set}; if (r.chance(bad * 0.3)) parts.erase(parts.begin() + r.range(0, 1)); if (r.chance(0.4)) parts.push_back("\"comment\":\"MyPaint brush file\""); if (r.chance(0.3)) parts.push_back("\"parent_brush_name\":\"classic/x\""); if (r.chance(bad)) parts.push_back("\"settings2\":" + junk(r)); if (r.chance(bad * 0.3)) parts.push_back(ver); if (r.chance(0.5)) std::reverse(parts.begin(), parts.end());
    for (size_t i = 0; i < parts.size(); i++) s += (i ? "," : "") + nl() + parts[i]; return s + "}"; }
static std::string damage(Rng &r, std::string s, const std::string &other, const char *&kind) {
    int n = s.size(); if (!n) return s;
    switch (r.range(0, 9)) {
    case 0: kind = "torn"; s.resize(r.range(0, n - 1)); break;
    case 1: { kind = "bitflip"; int k = r.range(1, 3); while (k--) { int i = r.range(0, n - 1); s[i] ^= 1 << r.range(0, 7); if (!s[i]) s[i] = ' '; } break; }
    case 2: { kind = "mixed"; int cut = r.range(0, n - 1); s = s.substr(0, cut) + (cut < (int)other.size() ? other.substr(cut) : ""); break; }
    case 3: { kind = "lost_block"; int a = r.range(0, n - 1), l = r.range(1, 64); s.erase(a, l); break; }
    case 4: { kind = "doubled_block"; int a = r.range(0, n - 1), l = r.range(1, 64); s.insert(a, s.substr(a, l)); break; }
    case 5: { kind = "overwritten_block"; int a = r.range(0, n - 1), l = r.range(1, 32); for (int i = a; i < std::min(n, a + l); i++) s[i] = " \xff{}[]\",:0"[r.range(0, 9)]; break; }
    case 6: { kind = "bad_digit"; std::vector<int> d; for (int i = 0; i < n; i++) if (isdigit((u8)s[i]) || s[i] == '.') d.push_back(i); if (d.size()) { int i = r.pick(d); s[i] = "0123456789.-eE+"[r.range(0, 14)]; } break; }
    case 7: { kind = "bad_name"; std::vector<int> d; for (int i = 0; i < n; i++) if (isalpha((u8)s[i]) || s[i] == '_') d.push_back(i); if (d.size()) s[r.pick(d)] ^= 0x20; break; }
    case 8: { kind = "nested"; std::string q; int k = r.pick(std::vector<int>{3, 31, 33, 2000}); s.insert(r.range(0, n - 1), std::string(k, r.chance(0.5) ? '[' : '{')); break; }
    default: { kind = "value_replaced"; std::vector<int> d; for (int i = 0; i < n; i++) if (s[i] == ':' || s[i] == ',' || s[i] == '[') d.push_back(i); if (d.size()) { int i = r.pick(d) + 1, j = i, depth = 0; while (j < n) { char c = s[j]; if (c == '[' || c == '{') depth++; if (c == ']' || c == '}') { if (!depth) break; depth--; } if (!depth && c == ',') break; j++; } s.replace(i, j - i, junk(r)); } break; }
    } return s; }
static const char *KIND[] = {"torn", "bitflip", "mixed", "lost_block", "doubled_block", "overwritten_block", "bad_digit", "bad_name", "nested", "value_replaced"};
static void gen(Rng &r, Plan &p, int tier) {
    int n = r.range(2, tier ? 24 : 12); EvState es; EvGen eg; std::string last = doc(r); p.cfg["rec"] = r.range(0, 3); p.cfg["rseed"] = r.range(1, 1 << 20);
    for (int i = 0; i < n; i++) {
        double u = r.u(); if (u < 0.06) { p.add("defaults"); continue; } if (u < 0.09) { p.add("null"); continue; } if (u < 0.12) { p.add("set", {(double)r.range(0, NS - 1), f32(r.uni(0, 1))}); continue; }
        if (u < 0.27) { p.add("paint"); int k = r.range(1, 6); for (int j = 0; j < k; j++) p.add("ev", ev_args(gen_ev(r, es, eg))); continue; }
        std::string d = doc(r); int kd = -1; if (r.chance(0.45)) { int k = r.range(1, 2); while (k--) { const char *kn = ""; d = damage(r, d, last, kn); for (int q = 0; q < 10; q++) if (!strcmp(kn, KIND[q])) kd = q; } } last = d; size_t z = d.find('\0'); if (z != std::string::npos) d.resize(z);
        p.add("load", {(double)kd}, d);
    }
}
// ---------------------------------------------------------------- what must come out
struct S { float base; std::vector<std::pair<float, float>> c[NI]; };
static bool number(json_object *o, float &v) { if (!o || !(json_object_is_type(o, json_type_double) || json_object_is_type(o, json_type_int))) return false; v = (float)json_object_get_double(o); return std::isfinite(v); }
static bool wellformed(json_object *e, S &s, std::vector<int> &inputs) {
    json_object *b = 0, *in = 0; if (!e || !json_object_is_type(e, json_type_object) || !json_object_object_get_ex(e, "base_value", &b) || !number(b, s.base) || !json_object_object_get_ex(e, "inputs", &in) || !in || !json_object_is_type(in, json_type_object)) return false;
    json_object_object_foreach(in, name, a) {
        int id = -1; for (int i = 0; i < NI; i++) if (!strcmp(name, mypaint_brush_input_info((MyPaintBrushInput)i)->cname)) id = i; if (id < 0 || !a || !json_object_is_type(a, json_type_array)) return false;
        size_t n = json_object_array_length(a); if (n == 1 || n > MP) return false; s.c[id].clear();
        for (size_t i = 0; i < n; i++) { json_object *q = json_object_array_get_idx(a, i); float x, y; if (!q || !json_object_is_type(q, json_type_array) || json_object_array_length(q) != 2 || !number(json_object_array_get_idx(q, 0), x) || !number(json_object_array_get_idx(q, 1), y)) return false; if (i && x < s.c[id].back().first) return false; s.c[id].push_back({x, y}); }
        inputs.push_back(id); }
    return true; }
static void query(MyPaintBrush *b, int id, S &s) { s.base = LIB(mypaint_brush_get_base_value(b, (MyPaintBrushSetting)id)); for (int i = 0; i < NI; i++) { int n = LIB(mypaint_brush_get_mapping_n(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)i)); CHECK(n == 0 || (n >= 2 && n <= MP), "setting-invalid", "%s over input %d has %d points", SET_NAME(id), i, n); s.c[i].resize(n); for (int k = 0; k < n; k++) { InLib l; mypaint_brush_get_mapping_point(b, (MyPaintBrushSetting)id, (MyPaintBrushInput)i, k, &s.c[i][k].first, &s.c[i][k].second); } } }
static std::string sdiff(const S &a, const S &b) { char t[200]; if (!feq(a.base, b.base)) { snprintf(t, sizeof t, "base value %.9g, expected %.9g", a.base, b.base); return t; } for (int i = 0; i < NI; i++) { if (a.c[i].size() != b.c[i].size()) { snprintf(t, sizeof t, "input %d has %zu points, expected %zu", i, a.c[i].size(), b.c[i].size()); return t; } for (size_t k = 0; k < a.c[i].size(); k++) if (a.c[i][k] != b.c[i][k]) { snprintf(t, sizeof t, "input %d point %zu is (%.9g,%.9g), expected (%.9g,%.9g)", i, k, a.c[i][k].first, a.c[i][k].second, b.c[i][k].first, b.c[i][k].second); return t; } } return ""; }
static void exec(const Plan &p) {
    { MyPaintBrush *b = brush_new(1); apply_brush_op(b, Op{"defaults"}); InLib l; mypaint_brush_from_string(b, "{\"version\":3,\"settings\":{\"hue\":1}}"); mypaint_brush_unref(b); } u64 live0 = al_live_blocks();
    MyPaintBrush *b = brush_new(1); apply_brush_op(b, Op{"defaults"}); RecSurface *rs = rec_new(p.ci("rec"), (u64)p.c("rseed")); rs->check_finite = false; std::vector<S> m(NS); for (int i = 0; i < NS; i++) query(b, i, m[i]);
    u64 accepted = 0, refused = 0, good = 0, badent = 0, painted = 0, id = 0; bool paintable = false; char ex[120];
    for (auto &o : p.ops) {
        if (o.k == "defaults" || o.k == "set") { if (o.k == "set" && (o.iarg(0) < 0 || o.iarg(0) >= NS)) continue; apply_brush_op(b, o); for (int i = 0; i < NS; i++) query(b, i, m[i]); continue; }
        if (o.k == "paint") { // clamp what the document asked for to what a user interface would allow, then paint
            for (int i = 0; i < NS; i++) { const MyPaintBrushSettingInfo *si = mypaint_brush_setting_info((MyPaintBrushSetting)i); InLib l; float v = m[i].base; if (!(v >= si->min)) v = si->min; if (v > si->max) v = si->max; if (i == SET(RADIUS_LOGARITHMIC)) v = std::max(0.f, std::min(v, 2.5f)); if (i == SET(DABS_PER_ACTUAL_RADIUS) || i == SET(DABS_PER_BASIC_RADIUS)) v = std::min(v, 2.f); if (i == SET(DABS_PER_SECOND)) v = std::min(v, 20.f); if (v != m[i].base) mypaint_brush_set_base_value(b, (MyPaintBrushSetting)i, v); for (int k = 0; k < NI; k++) { bool bad = i == SET(RADIUS_LOGARITHMIC) || i == SET(DABS_PER_ACTUAL_RADIUS) || i == SET(DABS_PER_BASIC_RADIUS) || i == SET(DABS_PER_SECOND); for (auto &q : m[i].c[k]) if (!(std::fabs(q.second) < 4)) bad = true; if (bad && m[i].c[k].size()) mypaint_brush_set_mapping_n(b, (MyPaintBrushSetting)i, (MyPaintBrushInput)k, 0); } }
            for (int i = 0; i < NS; i++) query(b, i, m[i]); paintable = true; continue; }
        if (o.k == "ev") { Ev e = ev_from(o); if (paintable && std::fabs(e.x) < 1e4f && std::fabs(e.y) < 1e4f) { R_ev(b, rs, e, id++); painted++; rs->dabs->clear(); } continue; }
        if (o.k != "load" && o.k != "null") continue;
        const char *text = o.k == "null" ? 0 : o.s.c_str(); sim_note("brush_from_string"); int ret; { InLib l; ret = mypaint_brush_from_string(b, text); } paintable = false;
        if (o.iarg(0, -1) >= 0 && o.iarg(0) < 10) { char nm[40]; snprintf(nm, sizeof nm, "fault_doc_%s", KIND[o.iarg(0)]); sim_count(nm); }
        json_object *d = text ? json_tokener_parse(text) : 0, *ver = 0, *set = 0; std::vector<S> now(NS); for (int i = 0; i < NS; i++) query(b, i, now[i]);
        bool isobj = d && json_object_is_type(d, json_type_object); if (isobj) { json_object_object_get_ex(d, "version", &ver); json_object_object_get_ex(d, "settings", &set); }
        bool v3 = ver && json_object_is_type(ver, json_type_int) && json_object_get_int64(ver) == 3, maybe3 = ver && !json_object_is_type(ver, json_type_int) && json_object_get_int(ver) == 3; if (ver && json_object_is_type(ver, json_type_int) && json_object_get_int64(ver) != 3 && (int)json_object_get_int64(ver) == 3) maybe3 = true;
        bool setobj = set && json_object_is_type(set, json_type_object);
        snprintf(ex, sizeof ex, "%.100s", text ? text : "(NULL)"); for (char *c = ex; *c; c++) if (*c < 32) *c = ' ';
        if (!setobj || (!v3 && !maybe3)) { refused++; CHECK(!ret, "bad-accepted", "something that is not a version 3 brush document was accepted: %s", ex); for (int i = 0; i < NS; i++) { std::string w = sdiff(now[i], m[i]); CHECK(w.empty(), "refused-changed", "a refused document changed %s: %s; document %s", SET_NAME(i), w.c_str(), ex); } }
        else {
            accepted++; std::vector<int> st(NS, 0); std::vector<S> want = m; int ngood = 0, nknown = 0; // 0 not mentioned, 1 well-formed, 2 damaged
            json_object_object_foreach(set, name, e) { int k = -1; for (int i = 0; i < NS; i++) if (!strcmp(name, SET_NAME(i))) k = i; if (k < 0) continue; nknown++; std::vector<int> in; S s = m[k]; if (wellformed(e, s, in)) { want[k] = s; st[k] = 1; ngood++; } else { st[k] = 2; badent++; } }
            good += ngood; bool took = ret || v3;
            if (v3) { if (ngood) CHECK(ret, "good-refused", "a document with %d well-formed settings was refused: %s", ngood, ex); if (!nknown) CHECK(!ret, "empty-accepted", "a document without any known setting was accepted: %s", ex); }
            if (took) for (int i = 0; i < NS; i++) {
                if (st[i] != 2) { std::string w = sdiff(now[i], want[i]); CHECK(w.empty(), st[i] ? "entry-not-loaded" : "unmentioned-changed", "%s (%s in the document): %s; document %s", SET_NAME(i), st[i] ? "well-formed" : "not mentioned", w.c_str(), ex); }
                else { CHECK(std::isfinite(now[i].base), "setting-invalid", "base value of %s is %g after loading %s", SET_NAME(i), now[i].base, ex); for (int k = 0; k < NI; k++) for (size_t q = 0; q < now[i].c[k].size(); q++) CHECK(std::isfinite(now[i].c[k][q].first) && std::isfinite(now[i].c[k][q].second) && (!q || now[i].c[k][q].first >= now[i].c[k][q - 1].first), "setting-invalid", "curve of %s over input %d has point %zu (%g,%g) after loading %s", SET_NAME(i), k, q, now[i].c[k][q].first, now[i].c[k][q].second, ex); } }
        }
        if (d) json_object_put(d); m = now; Hash h; for (auto &s : m) { h.addf(s.base == 0 ? 0.0 : s.base); for (auto &c : s.c) for (auto &q : c) { h.addf(q.first); h.addf(q.second); } } sim_hash(h.h); sim_state(mix64(accepted * 131 + refused) ^ (h.h & 0xff));
    }
    if (accepted + refused) sim_nontrivial(); sim_count("probe_accepted", accepted); sim_count("probe_refused", refused); sim_count("probe_wellformed_entries", good); sim_count("probe_damaged_entries_in_accepted", badent); sim_count("probe_painted_with_loaded_settings", painted);
    B_unref(b); rec_free(rs); if (al_accounts()) CHECK(al_live_blocks() == live0, "leak", "%lld blocks left after loading documents and dropping the brush: %s", (long long)(al_live_blocks() - live0), al_describe_live(4).c_str()); al_check_heap("end");
}
static RegProp reg({"C15", "ra", gen, exec});
