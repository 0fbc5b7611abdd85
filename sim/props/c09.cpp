// C09: same inputs give the same painting, always. The second instance meets other memory contents,
// another clock, other instances at work, and earlier repetitions of the same work.
#include "inst.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
static void gen(Rng &r, Plan &p, int tier) {
    gen_work(r, p, "a:", 5, tier ? 60 : 30, true); if (r.chance(0.6)) gen_work(r, p, "o:", 3, 15, true); p.cfg["env"] = r.range(1, 1 << 30); p.cfg["fill2"] = r.range(0, 4); p.cfg["again"] = r.range(0, 2); p.cfg["print"] = r.chance(0.2); p.cfg["rnd"] = r.range(1, 1 << 20); p.cfg["apart"] = r.chance(0.35); p.cfg["rmode"] = r.chance(0.7) ? 0 : r.range(1, 4);
}
static void exec(const Plan &p) {
    std::vector<const Op *> a, o; for (auto &q : p.ops) if (q.k.compare(0, 2, "a:") == 0) a.push_back(&q); else if (q.k.compare(0, 2, "o:") == 0) o.push_back(&q);
    u64 env = (u64)p.c("env", 1), rnd = (u64)p.c("rnd", 1); int rmode = std::max(0, std::min(4, p.ci("rmode"))); struct Out { u64 canvas; std::vector<u64> trace; u64 drew; u64 large; }; u64 shift = 0;
    auto run = [&](bool strange) { // the process-wide random stream used for colour sampling is part of the input
        Inst x, y; x.garbled = strange; x.garble = Rng(env); size_t j = 0; Rng g(env + 5); Out out; u64 k = 0; std::vector<void *> held;
        if (strange) { ambient_set(env); al_set_fill(p.ci("fill2"), env + 9); for (int i = g.range(0, 12); i > 0; i--) { InLib l; MyPaintBrush *b = mypaint_brush_new(); if (b) mypaint_brush_unref(b); } }
        else { ambient_set(1); al_set_fill(p.ci("fill"), 1); }
        for (auto q : a) { if (strange) while (j < o.size() && g.chance(0.4)) { y.op(*o[j], o[j]->k.c_str() + 2); j++; sim_count("probe_other_instance_ops"); } rt_set_rand(rmode, mix64(rnd + 31 * k++) + shift); x.op(*q, q->k.c_str() + 2); if (strange && x.b && p.ci("print")) { InLib l; mypaint_brush_set_print_inputs(x.b, k % 7 != 3); } }
        rt_set_rand(0, 5); out.canvas = x.canvas(); out.trace = x.trace; out.drew = x.drew; x.drop(); out.large = x.large; y.drop(); return out; };
    // the same work in a process of its own, after other work: nothing of that may stay behind
    std::vector<u64> apart; int fd = -1; if (p.ci("apart")) {
        fd = memfd_create("apart", 0); pid_t pid = fork(); if (pid == 0) { warm_up(env); { Inst z; for (auto q : o) z.op(*q, q->k.c_str() + 2); z.drop(); } Out t = run(true); t.trace.push_back(t.canvas); t.trace.push_back(t.large); size_t n = t.trace.size() * sizeof(u64); if (pwrite(fd, t.trace.data(), n, 0) != (ssize_t)n) _exit(97); _exit(0); }
        int st = 0; while (waitpid(pid, &st, 0) < 0) {} if (sim_failed()) _exit(1); if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); } if (WEXITSTATUS(st)) _exit(WEXITSTATUS(st));
        apart.resize((size_t)lseek(fd, 0, SEEK_END) / sizeof(u64)); if (pread(fd, apart.data(), apart.size() * sizeof(u64), 0) < 0) _exit(97); close(fd); }
    Out first = run(false); if (fd >= 0) { u64 large = apart.back(); apart.pop_back(); u64 canvas = apart.back(); apart.pop_back(); size_t k = 0, m = std::min(apart.size(), first.trace.size()); while (k < m && apart[k] == first.trace[k]) k++; (void)large; sim_count("probe_after_other_work");
        CHECK(k == first.trace.size() && k == apart.size(), "not-reproducible", "the same calls gave different results in a process that did other work before, first at result %zu of %zu", k, first.trace.size()); CHECK(canvas == first.canvas, "not-reproducible", "the same calls left a different canvas in a process that did other work before"); } if (!first.large) { shift = mix64(env); sim_count("probe_other_c_library_random_numbers"); } /* no pickup of the kind that samples at random was made */ int n = 1 + std::max(0, std::min(3, p.ci("again")));
    for (int i = 0; i < n; i++) {
        bool strange = i == 0 || (i & 1) == 0; Out t = run(strange); size_t k = 0, m = std::min(t.trace.size(), first.trace.size()); while (k < m && t.trace[k] == first.trace[k]) k++;
        CHECK(k == first.trace.size() && k == t.trace.size(), "not-reproducible", "the same calls gave different results the second time, first at result %zu of %zu (repetition %d, %s)", k, first.trace.size(), i + 1, strange ? "other memory contents, clock and instances around" : "same surroundings"); CHECK(t.canvas == first.canvas, "not-reproducible", "the same calls left a different canvas the second time (repetition %d)", i + 1); }
    sim_hash(first.canvas); for (size_t i = 0; i < first.trace.size(); i += 16) sim_state(first.trace[i]); if (first.drew > 2) sim_nontrivial(); sim_count("fault_garbage_memory", first.drew ? 1 : 0);
}
static RegProp reg({"C09", "ra", gen, exec});
