// Runner: seeds -> plans -> simulated runs in forked processes; replay; minimisation.
#include "core.h"
#include "rt.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <iostream>

Shared *SH;
#if defined(__SANITIZE_ADDRESS__) || defined(SIM_ASAN)
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:print_stats=0:max_malloc_fill_size=0:quarantine_size_mb=32:malloc_context_size=6"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=98"; }
#endif
int sim_failed() { return SH->failed; }
static void fin() { rt_end_run(); SH->done = 1; fflush(stdout); _exit(0); }
void sim_fail_raw(const char *cls, const char *m) { if (!SH->failed) { SH->failed = 1; snprintf(SH->cls, sizeof SH->cls, "%s", cls); snprintf(SH->msg, sizeof SH->msg, "%s", m); } fin(); __builtin_unreachable(); }
void sim_fail(const char *cls, const char *f, ...) { rt_inlib() = 0; char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); sim_fail_raw(cls, b); }
void sim_note(const char *s) { snprintf(SH->note, sizeof SH->note, "%s", s); }
void sim_count(const char *n, u64 k) { for (int i = 0; i < SH->nstat; i++) if (!strcmp(SH->stat[i].name, n)) { SH->stat[i].v += k; return; } if (SH->nstat < MAXSTAT) { snprintf(SH->stat[SH->nstat].name, 40, "%s", n); SH->stat[SH->nstat++].v = k; } }
void sim_state(u64 h) { for (int i = SH->nstates - 1; i >= 0 && i > SH->nstates - 16; i--) if (SH->states[i] == h) return; if (SH->nstates < MAXSTATES) SH->states[SH->nstates++] = h; }
void sim_hash(u64 v) { SH->hash = mix64(SH->hash ^ v); }
void sim_time(double d) { SH->simtime += d; }
void sim_nontrivial() { SH->nontrivial = 1; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Prop *find_prop(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return 0; }
static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

struct Res { int failed = 0; std::string cls, msg; u64 hash = 0, steps = 0; double simtime = 0; };
static char *const MSTK = (char *)0x28f000000000ull; static const size_t MSTKN = 16u << 20;
static const Plan *g_plan; static Prop *g_prop;
void warm_up(u64 seed); // world.cpp
static void *exec_thread(void *) {
    rt_main_stack(MSTK); rt_begin_run([] { SchedCfg s; const Plan &p = *g_plan; s.omp_threads = std::max(1, std::min(64, p.ci("threads", 1))); s.p_access = p.c("p_access"); s.p_hot = p.c("p_hot"); s.seed = (u64)p.c("sseed", 1); s.ompProcs = s.omp_threads; return s; }(), *g_plan);
    if (g_plan->ci("warm")) { al_set_fill(3, 1); rt_set_rand(0, 9); warm_up((u64)g_plan->ci("warm")); }
    AllocCfg a; a.fill = g_plan->ci("fill", 3); a.seed = g_plan->seed; al_begin_run(a); rt_set_rand(0, g_plan->seed ^ 77);
    ambient_set(g_plan->seed); pollute_stack(g_plan->seed); g_prop->exec(*g_plan); fin(); return 0;
}
static int errfd = -1, g_cpu = 25;
static Res run_plan(const Plan &p) {
    Res r; Prop *pr = find_prop(p.prop); if (!pr) { r.failed = 2; r.cls = "harness"; r.msg = "unknown property"; return r; }
    SH->done = SH->failed = SH->nontrivial = 0; SH->cls[0] = SH->msg[0] = SH->note[0] = 0; SH->hash = 1; SH->steps = 0; SH->simtime = 0; SH->nstat = SH->nstates = SH->nsw = 0;
    if (errfd < 0) errfd = memfd_create("err", 0); if (ftruncate(errfd, 0)) {}; lseek(errfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) {
        rlimit rl{(rlim_t)g_cpu, (rlim_t)g_cpu + 3}; setrlimit(RLIMIT_CPU, &rl); rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc); alarm(600);
        dup2(errfd, 2); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); static char ob[4096]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
        g_plan = &p; g_prop = pr;
        void *m = mmap(MSTK, MSTKN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m != MSTK) _exit(97);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, MSTK, MSTKN); pthread_t t; if (pthread_create(&t, &a, exec_thread, 0)) _exit(97); pthread_join(t, 0); _exit(96);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    r.hash = SH->hash; r.steps = SH->steps; r.simtime = SH->simtime;
    if (SH->failed) { r.failed = !strcmp(SH->cls, "harness") ? 2 : 1; r.cls = SH->cls; r.msg = std::string(SH->msg) + (SH->note[0] ? std::string(" [last call: ") + SH->note + "]" : ""); }
    else if (WIFSIGNALED(st)) { int s = WTERMSIG(st); r.failed = 1; r.cls = s == SIGXCPU || s == SIGKILL || s == SIGALRM ? "hang" : std::string("crash-") + (s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : std::to_string(s)); r.msg = r.cls + " during " + SH->note; if (s == SIGKILL) { r.failed = 2; r.cls = "harness"; } }
    else if (!SH->done) {
        int ec = WEXITSTATUS(st); char b[3000]; ssize_t k = pread(errfd, b, sizeof b - 1, 0); b[k < 0 ? 0 : k] = 0; char *e = strstr(b, "ERROR: AddressSanitizer"); char *u = strstr(b, "runtime error: ");
        if (e) { r.failed = 1; char ty[60] = ""; sscanf(e + 25, "%59s", ty); r.cls = std::string("asan-") + ty; char *nl = strstr(e, "\n    #4"); if (nl) *nl = 0; if (strlen(e) > 600) e[600] = 0; r.msg = std::string(e) + " [last call: " + SH->note + "]"; }
        else if (u) { r.failed = 1; r.cls = "ubsan"; char *nl = strchr(u, '\n'); if (nl) *nl = 0; r.msg = std::string(u) + " [last call: " + SH->note + "]"; }
        else { r.failed = 2; r.cls = "harness"; r.msg = "exit code " + std::to_string(ec) + " during " + SH->note + ": " + b; }
    }
    return r;
}
static Plan gen_plan(Prop *pr, u64 base, u64 i, int tier) {
    Plan p; p.prop = pr->id; u64 h = 0; for (const char *c = pr->id; *c; c++) h = mix64(h ^ *c); p.seed = mix64(mix64(base ^ h) + i) >> 12; Rng r(p.seed); pr->gen(r, p, tier);
    if (!p.cfg.count("fill")) { static const int f[] = {3, 3, 4, 5, 2, 1}; p.cfg["fill"] = f[r.range(0, 5)]; } if (strcmp(pr->id, "C08") && strcmp(pr->id, "C09") && p.seed % 4 == 1) p.cfg["warm"] = (double)(1 + p.seed % 9973); return p;
}
static std::string slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string &f, const std::string &s) { std::ofstream o(f); o << s; }

// ---------------------------------------------------------------- minimisation
static double mdead; static std::string mcls; static int mruns = 0;
static bool still(const Plan &p) { if (now() > mdead) return false; mruns++; Res r = run_plan(p); return r.failed == 1 && r.cls == mcls; }
template <class V> static void ddmin(Plan &p, V Plan::*f) {
    size_t n = 2; while ((p.*f).size() >= 1 && now() < mdead) {
        size_t sz = (p.*f).size(), ch = std::max<size_t>(1, (sz + n - 1) / n); bool any = false;
        for (size_t s = 0; s < (p.*f).size();) { Plan q = p; auto &v = q.*f; v.erase(v.begin() + s, v.begin() + std::min(v.size(), s + ch)); if (still(q)) { p = q; any = true; } else s += ch; }
        if (ch == 1 && !any) break; if (!any) n = std::min(n * 2, std::max<size_t>(2, (p.*f).size())); else n = std::max<size_t>(2, std::min(n, (p.*f).size()));
        if (ch == 1 && any) continue;
    }
}
static Plan minimise(Plan p, double secs, std::string &note) {
    double t0 = now(); mdead = t0 + secs; Res r0 = run_plan(p); if (r0.failed != 1) { note = "did not fail again"; return p; } mcls = r0.cls; size_t n0 = p.ops.size();
    bool had_sw = p.explicit_sched;
    if (!had_sw) { Plan q = p; q.cfg["p_access"] = 0; q.cfg["p_hot"] = 0; if (still(q)) p = q; if (p.ci("threads", 1) > 1) for (int t : {1, 2, 3}) { Plan q = p; q.cfg["threads"] = t; if (still(q)) { p = q; break; } } }
    ddmin(p, &Plan::ops);
    for (auto &c : std::map<std::string, double>(p.cfg)) for (double v : {0.0, 1.0}) { if (p.cfg[c.first] == v || now() > mdead) break; Plan q = p; q.cfg[c.first] = v; if (still(q)) { p = q; break; } }
    // simpler arguments
    for (size_t i = 0; i < p.ops.size() && now() < mdead; i++) { for (size_t j = 0; j < p.ops[i].a.size() && now() < mdead; j++) { double v = p.ops[i].a[j]; for (double w : {0.0, 1.0, std::round(v), std::round(v * 16) / 16}) { if (w == v) break; Plan q = p; q.ops[i].a[j] = w; if (still(q)) { p = q; break; } } }
        if (p.ops[i].s.size() > 1) { for (size_t ch = p.ops[i].s.size() / 2; ch >= 1 && now() < mdead; ch /= 2) for (size_t s = 0; s < p.ops[i].s.size() && now() < mdead;) { Plan q = p; q.ops[i].s.erase(s, ch); if (still(q)) p = q; else s += ch; } } }
    ddmin(p, &Plan::ops);
    Res r = run_plan(p); // pin the schedule
    if (SH->nsw > 0 && SH->nsw < MAXSW && !p.explicit_sched) { Plan q = p; q.explicit_sched = true; q.sw.clear(); for (int i = 0; i < SH->nsw; i++) q.sw.push_back({SH->sw[i].step, SH->sw[i].tid}); if (mdead < now() + 5) mdead = now() + 5; if (still(q)) { p = q; } }
    if (p.explicit_sched) ddmin(p, &Plan::sw);
    char b[160]; snprintf(b, sizeof b, "%zu -> %zu operations, %zu switches, %d runs, %.1f s", n0, p.ops.size(), p.sw.size(), mruns, now() - t0); note = b; return p;
}
static std::string with_expect(const Plan &p, const Res &r) { std::string m = r.msg; for (auto &c : m) if (c == '\n') c = ' '; char h[40]; snprintf(h, sizeof h, "%016llx", (unsigned long long)r.hash); return "# replay: " + p.prop + "\n# class: " + r.cls + "\n# message: " + m + "\n# hash: " + h + "\n" + p.text(); }

void sim_setup() __attribute__((weak));
int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sim_setup) sim_setup();
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto &p : props()) printf("%s %s\n", p.id, p.variants); return 0; }
    if (cmd == "gen" && argc > 4) { Prop *p = find_prop(argv[2]); Plan q = gen_plan(p, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), 0); fputs(q.text().c_str(), stdout); return 0; }
    if (cmd == "replay" && argc > 2) { g_cpu = 75;
        Plan p; std::string e; if (!p.parse(slurp(argv[2]), e)) { fprintf(stderr, "bad replay file: %s\n", e.c_str()); return 2; }
        Res r = run_plan(p); printf("{\"failed\":%d,\"class\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"message\":\"%s\"}\n", r.failed, esc(r.cls).c_str(), (unsigned long long)r.hash, (unsigned long long)r.steps, esc(r.msg).c_str());
        if (argc > 3) for (int i = 0; i < SH->nstat; i++) printf("  %s %llu\n", SH->stat[i].name, (unsigned long long)SH->stat[i].v);
        if (argc > 3) { char b[4000]; ssize_t k = pread(errfd, b, sizeof b - 1, 0); if (k > 0) { b[k] = 0; printf("%s\n", b); } }
        return r.failed == 1 ? 1 : r.failed;
    }
    if (cmd == "min" && argc > 4) {
        Plan p; std::string e; if (!p.parse(slurp(argv[2]), e)) { fprintf(stderr, "bad file: %s\n", e.c_str()); return 2; }
        std::string note; Plan q = minimise(p, atof(argv[4]), note); Res r = run_plan(q); spit(argv[3], with_expect(q, r));
        printf("{\"failed\":%d,\"class\":\"%s\",\"hash\":\"%016llx\",\"message\":\"%s\",\"note\":\"%s\"}\n", r.failed, esc(r.cls).c_str(), (unsigned long long)r.hash, esc(r.msg).c_str(), esc(note).c_str()); return 0;
    }
    if (cmd == "run" && argc > 9) { // run PROP BASESEED WORKER NWORKERS BUDGET MAXRUNS TIER OUTPREFIX
        Prop *pr = find_prop(argv[2]); if (!pr) { fprintf(stderr, "no such property\n"); return 2; }
        u64 base = strtoull(argv[3], 0, 10); int w = atoi(argv[4]), nw = atoi(argv[5]); double budget = atof(argv[6]); u64 maxr = strtoull(argv[7], 0, 10); int tier = atoi(argv[8]); std::string out = argv[9];
        double t0 = now(), maxrun = 0; u64 runs = 0, slow = 0, nontriv = 0, steps = 0, dup = 0; double simt = 0; std::map<std::string, std::pair<u64, u64>> stats; std::unordered_set<u64> states, finals; std::string samples, fail; int rc = 0;
        for (u64 i = w; runs < maxr && now() - t0 < budget; i += nw) {
            Plan p = gen_plan(pr, base, i, tier); double tr = now(); Res r = run_plan(p); maxrun = std::max(maxrun, now() - tr); if (r.cls == "hang") { g_cpu = 75; r = run_plan(p); g_cpu = 25; slow++; } runs++; steps += r.steps; simt += r.simtime; nontriv += SH->nontrivial; if (SH->nontrivial) finals.insert(r.hash);
            for (int k = 0; k < SH->nstat; k++) { auto &s = stats[SH->stat[k].name]; s.first += SH->stat[k].v; s.second++; } if (states.size() < 3000000) for (int k = 0; k < SH->nstates; k++) states.insert(SH->states[k]);
            if (runs <= 2) { std::string t = p.text(); if (t.size() > 1500) t = t.substr(0, 1500) + "..."; samples += (samples.empty() ? "" : ",") + std::string("\"") + esc(t) + "\""; }
            if (r.failed) { fail = ",\"fail\":{\"failed\":" + std::to_string(r.failed) + ",\"class\":\"" + esc(r.cls) + "\",\"message\":\"" + esc(r.msg) + "\",\"index\":" + std::to_string(i) + "}"; spit(out + ".plan", with_expect(p, r)); rc = r.failed; break; }
            if (runs <= 3 || runs % 64 == 0) { Res r2 = run_plan(p); dup++; if (r2.failed != r.failed || r2.hash != r.hash || r2.steps != r.steps) { fail = ",\"fail\":{\"failed\":3,\"class\":\"nondeterminism\",\"message\":\"two runs of seed index " + std::to_string(i) + " differ\",\"index\":" + std::to_string(i) + "}"; spit(out + ".plan", with_expect(p, r)); rc = 3; break; } }
        }
        std::string js = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"distinct\":" + std::to_string(finals.size()) + ",\"states\":" + std::to_string(states.size()) + ",\"repeated\":" + std::to_string(dup) + ",\"slow\":" + std::to_string(slow) + ",\"steps\":" + std::to_string(steps) + ",\"simtime\":" + std::to_string(simt) + ",\"wall\":" + std::to_string(now() - t0) + ",\"maxrun\":" + std::to_string(maxrun) + ",\"samples\":[" + samples + "],\"stats\":{"; bool first = true;
        for (auto &s : stats) { js += (first ? "\"" : ",\"") + s.first + "\":[" + std::to_string(s.second.first) + "," + std::to_string(s.second.second) + "]"; first = false; } js += "}" + fail + "}\n";
        std::ofstream bs(out + ".bin", std::ios::binary); for (u64 h : states) bs.write((char *)&h, 8); std::ofstream bf(out + ".fin", std::ios::binary); for (u64 h : finals) bf.write((char *)&h, 8);
        spit(out + ".json", js); return rc;
    }
    fprintf(stderr, "usage: simrun list | gen P SEED I | replay FILE [v] | min FILE OUT SECS | run ...\n"); return 2;
}
