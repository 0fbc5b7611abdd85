// C19: canvas pixels stay valid; changes stay local; alpha rules.
#include "world.h"
static void gen(Rng &r, Plan &p, int tier) {
    p.cfg["mode"] = r.range(0, 1); p.cfg["init"] = r.pick(std::vector<int>{0, 2, 3, 3, 4, 5, 5}); p.cfg["iseed"] = r.range(1, 1 << 20);
    bool thr = r.chance(0.3); p.cfg["threadsafe"] = thr; if (thr) gen_sched(r, p, 4, 0.3);
    int n = r.range(3, tier ? 60 : 30); double area = r.pick(std::vector<double>{3, 20, 60}); DabGen g; g.area = area; g.rmax = r.pick(std::vector<double>{3, 14, 30}); g.weird = r.chance(0.5); g.paint = r.chance(0.7);
    bool repeat = r.chance(0.3); Dab base = gen_dab(r, g);
    p.add("begin");
    for (int i = 0; i < n; i++) {
        Dab d = repeat ? base : gen_dab(r, g); if (repeat) { d.opaque = (float)r.u() * base.opaque; if (r.chance(0.4)) { d.r = r.u(); d.g = r.u(); d.b = r.u(); } if (r.chance(0.3)) d.a = r.chance(0.5) ? 0 : (float)r.u(); }
        p.add("dab", dab_args(d)); if (r.chance(repeat ? 0.7 : 0.4)) { p.add("end"); p.add("begin"); }
    }
}
static void exec(const Plan &p) {
    StoreCfg c; c.mode = p.ci("mode"); c.init = p.ci("init"); c.seed = (u64)p.c("iseed", 1); c.threadsafe = p.ci("threadsafe"); { u64 k = mix64(c.seed); c.uni[3] = (k & 3) ? 1 << 15 : (k >> 8) % 32769; for (int i = 0; i < 3; i++) c.uni[i] = (k & 12) ? (mix64(k + ((k & 48) ? 0 : i)) >> 8) % (c.uni[3] + 1) : c.uni[3]; }
    SimSurface *s = surf_new(c); Store &st = *s->st; int ts = st.ts; std::vector<Dab> pend; bool open = false; u64 changed = 0;
    auto end = [&]() {
        if (!open) return; // touch what may change so that the earlier content is known
        for (auto &d : pend) { double R = std::min(200.0, std::max(0.0, (double)d.radius)) + 3; st.touch_all((int)std::floor(d.x - R), (int)std::floor(d.y - R), (int)std::ceil(d.x + R), (int)std::ceil(d.y + R)); }
        Snap before = st.snap(); L_end(IF(s)); st.idle("end_atomic"); open = false;
        bool keep_alpha = true, no_raise = true; // all pending dabs of these kinds
        for (auto &d : pend) { float a = std::max(0.f, std::min(1.f, d.a)); float lk = std::max(0.f, std::min(1.f, d.lock)), co = std::max(0.f, std::min(1.f, d.colorize)), po = std::max(0.f, std::min(1.f, d.posterize)); (void)po;
            bool nodraw = d.radius < 0.1f || d.hardness <= 0 || d.softness >= 1 || d.opaque <= 0; if (nodraw) continue;
            if (!(lk >= 1 || co >= 1 || po >= 1)) keep_alpha = false; if (!(a <= 0 || (lk >= 1 || co >= 1 || po >= 1))) no_raise = false; }
        for (auto &t : st.tiles) {
            auto b = before.find(t.first); std::vector<u16> init; const std::vector<u16> *o = b == before.end() ? nullptr : &b->second;
            if (!o) { init.resize(ts * ts * 4); for (int i = 0; i < ts * ts; i++) st.pixel(t.first.first * ts + i % ts, t.first.second * ts + i / ts, &init[i * 4]); o = &init; }
            if (*o == t.second.px) continue;
            for (int i = 0; i < ts * ts; i++) {
                const u16 *n = &t.second.px[i * 4], *q = &(*o)[i * 4]; if (!memcmp(n, q, 8)) continue; changed++;
                int x = t.first.first * ts + i % ts, y = t.first.second * ts + i / ts;
                if (n[3] > 32768 || n[0] > n[3] || n[1] > n[3] || n[2] > n[3]) sim_fail("invalid-pixel", "pixel (%d,%d) became %d,%d,%d,%d (was %d,%d,%d,%d)", x, y, n[0], n[1], n[2], n[3], q[0], q[1], q[2], q[3]);
                double best = 1e30; for (auto &d : pend) best = std::min(best, std::hypot(x + 0.5 - d.x, y + 0.5 - d.y) - std::max(0.1f, d.radius));
                CHECK(best <= 1.5, "change-not-local", "pixel (%d,%d) changed %.3f pixels outside the radius of the nearest dab", x, y, best);
                if (keep_alpha) CHECK(n[3] == q[3], "alpha-changed", "pixel (%d,%d): alpha %d -> %d by dabs that lock alpha, colorize or posterize", x, y, q[3], n[3]);
                if (no_raise) CHECK(n[3] <= q[3], "alpha-raised", "pixel (%d,%d): alpha %d -> %d by erasing dabs", x, y, q[3], n[3]);
                if ((changed & 63) == 0) sim_state(mix64((u64)(n[3] >> 11) | (u64)(n[0] >> 12) << 8 | (u64)(n[1] >> 12) << 16 | (u64)(q[3] >> 11) << 24 | (u64)(q[0] >> 12) << 32));
            }
        }
        Hash h; for (auto &t : st.tiles) h.bytes(t.second.px.data(), t.second.px.size() * 2); sim_hash(h.h); pend.clear();
    };
    for (auto &o : p.ops) { if (o.k == "begin") { end(); L_begin(IF(s)); open = true; } else if (o.k == "end") end(); else if (o.k == "dab") { if (!open) { L_begin(IF(s)); open = true; } Dab d = dab_from(o); L_draw(IF(s), d); pend.push_back(d); } }
    end(); if (changed) sim_nontrivial(); sim_count("pixels_checked", changed); surf_unref(s); al_check_heap("end");
}
static RegProp reg({"C19", "ra", gen, exec});
