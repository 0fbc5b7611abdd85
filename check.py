#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]    search for a violation of one property
   check.py replay FILE                 replay a violation (exit 1 when it reproduces)
   check.py build                       build the simulator
Seeds come from VERIF_SEED (default 1). Everything is rebuilt from /repo's working tree."""
import os, sys, json, time, subprocess, glob, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import build as B
import meta

def now(): return time.monotonic()

def replay(exe, path):
    p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
    try: return json.loads(p.stdout.strip().splitlines()[0])
    except Exception: return {"failed": 2, "class": "harness", "hash": "", "message": p.stdout + p.stderr}

def env():
    e = dict(os.environ); e.pop("SIM_NOASLR", None); return e

def known():
    out = []
    try:
        for l in open("known_findings.txt"):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m: out.append(dict(prop=m[1], cls=m[2], rx=re.compile(m[3]), text=m[4]))
    except FileNotFoundError: pass
    return out

def symbolise(exe, msg):
    def f(m):
        try:
            o = subprocess.run(["addr2line", "-f", "-s", "-e", exe, m[1]], stdout=subprocess.PIPE, text=True).stdout.split("\n")
            return "%s(%s)" % (o[0], o[1])
        except Exception: return m[0]
    return re.sub(r"pc=(0x[0-9a-f]+)", f, msg)

def replay_cmd(path):
    txt = open(path, errors="replace").read()
    v = re.search(r"^# variant: (\w)", txt, re.M); v = v[1] if v else "r"
    exes = B.build([v]); r = replay(exes[v], path)
    r["message"] = symbolise(exes[v], r["message"])
    print(json.dumps(r, indent=1))
    if r["failed"] == 1:
        m = re.search(r"^prop (\S+)", txt, re.M); print("VIOLATION property=%s replay=%s" % (m[1], path))
    return r["failed"]

def loose(f): return f["class"] == "hang" or f["class"].startswith("crash-") # where exactly the process died after corrupting memory may vary

def handle_failure(prop, v, exe, plan, fail, tmp):
    """gate, minimise, store. Returns (exit code, lines)"""
    if fail["failed"] != 1: return 2, ["ERROR %s: %s: %s" % (prop, fail["class"], fail["message"][:2000])]
    a, b = replay(exe, plan), replay(exe, plan)
    if not (a["failed"] == b["failed"] == 1 and a["class"] == b["class"] == fail["class"] and (a["hash"] == b["hash"] or loose(fail))):
        return 2, ["ERROR %s: failure did not replay identically: %s / %s / %s" % (prop, fail, a, b)]
    for k in known():
        if k["prop"] == prop and k["cls"] == fail["class"] and k["rx"].search(fail["message"]): return 0, [("known", k["text"])]
    mn = os.path.join(tmp, "min.plan"); secs = int(os.environ.get("SIM_MINSECS", 20)) if fail["class"] != "hang" else 0
    if secs: subprocess.run([exe, "min", plan, mn, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env())
    m = replay(exe, mn) if os.path.exists(mn) else {"failed": 0}
    if m.get("failed") != 1 or m["class"] != fail["class"] or (not loose(fail) and replay(exe, mn) != m): mn, m = plan, a
    os.makedirs("replays", exist_ok=True)
    out = "replays/%s-%s-%s.plan" % (prop, fail["class"], m["hash"][:8])
    msg = symbolise(exe, m["message"])
    with open(mn, errors="replace") as f: t = f.read()
    with open(out, "w") as f: f.write("# variant: %s\n# symbolised: %s\n" % (v, msg.replace("\n", " ")) + t)
    return 1, ["%s: %s" % (m["class"], msg), "VIOLATION property=%s replay=%s" % (prop, out)]

def check(prop, tier):
    t0 = now(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = meta.PROPS[prop]; variants = info["variants"]
    exes = B.build(variants); tb = now() - t0
    budget = float(os.environ.get("SIM_BUDGET", 0)) or info.get(tier, 25 if tier == "quick" else 600)
    tmp = tempfile.mkdtemp(prefix="simrun-", dir=B.BUILD); lines, rc, viol = [], 0, 0
    try:
        # 1. regression corpus: minimised replays of violations found before
        ncorp = 0
        for c in sorted(glob.glob("corpus/%s/*.plan" % prop)):
            for v in variants:
                ncorp += 1; r = replay(exes[v], c)
                if r["failed"] == 1:
                    rc, l = handle_failure(prop, v, exes[v], c, r, tmp); lines += l; viol += 1
                    if rc: break
                elif r["failed"]: rc, lines = 2, lines + ["ERROR %s" % r]; break
            if rc: break
        # 2. seeded search
        workers = []
        if not rc:
            n = int(os.environ.get("SIM_WORKERS", "8")); split = {}
            if len(variants) == 1: split[variants[0]] = n
            else:
                na = max(1, int(round(n * info.get("asan_share", 0.375)))); split = {"r": max(1, n - na), "a": na}
            nf = int(os.environ.get("SIM_MAXRUNS", "1000000000"))
            for v in variants:
                for w in range(split[v]):
                    out = os.path.join(tmp, "%s%d" % (v, w)); base = seed * 1000003 + (0 if v == "r" else 500009)
                    workers.append((v, out, subprocess.Popen([exes[v], "run", prop, str(base), str(w), str(split[v]), str(budget), str(nf), "1" if tier == "thorough" else "0", out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env())))
            pend = list(workers); stop = False
            while pend:
                for x in list(pend):
                    c = x[2].poll()
                    if c is not None:
                        pend.remove(x)
                        if c != 0: stop = True
                if stop and pend:
                    time.sleep(0.05); g = now() + 3
                    for x in pend: x[2].terminate()
                    for x in pend: x[2].wait()
                    pend = []
                time.sleep(0.05)
        tot = dict(runs=0, slow=0, nontrivial=0, repeated=0, steps=0, simtime=0.0); stats, samples, states, fins = {}, [], set(), set(); perv = {}; maxrun = 0
        for v, out, p in workers:
            try: j = json.load(open(out + ".json"))
            except Exception:
                if p.returncode not in (0, -15): rc, lines = 2, lines + ["ERROR %s: worker ended with %s: %s" % (prop, p.returncode, p.stderr.read().decode(errors="replace")[-2000:])]
                continue
            for k in tot: tot[k] += j[k]
            perv[v] = perv.get(v, 0) + j["runs"]; maxrun = max(maxrun, j.get("maxrun", 0))
            for k, (a, b) in j["stats"].items(): s = stats.setdefault(k, [0, 0]); s[0] += a; s[1] += b
            samples += j["samples"]
            for ext, S in ((".bin", states), (".fin", fins)):
                d = open(out + ext, "rb").read(); S.update(d[i:i + 8] for i in range(0, len(d), 8))
        fails = []
        for v, out, p in workers:
            try: j = json.load(open(out + ".json"))
            except Exception: continue
            if "fail" in j: fails.append((v, out, j["fail"]))
        for v, out, f in fails:
            c, l = handle_failure(prop, v, exes[v], out + ".plan", f, tmp)
            if c == 0:
                for x in l: lines.append("KNOWN-FINDING: property=%s %s" % (prop, x[1]))
                continue
            lines += l; viol += c == 1
            if c == 1: rc = 1; break
            rc = rc or c
        if any("VIOLATION" in l for l in lines): rc = 1
        wall = now() - t0
        if not rc and workers and tot["runs"] == 0: rc, lines = 2, lines + ["ERROR %s: no run completed" % prop]
        need = info.get("need", [])
        missing = [k for k in need if stats.get(k, [0])[0] == 0]
        faults = {k: v[0] for k, v in sorted(stats.items()) if k.startswith("fault_")}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": viol,
              "coverage": {"evaluations": tot["runs"] + ncorp, "distinct_nontrivial": len(fins), "rule": info["rule"] + " Two runs count as distinct when the hash over their recorded event log (calls, scheduling switches, results) differs; a run is non-trivial when the harness marked that it exercised the property (see rule).",
                           "samples": samples[:3], "runs_per_hour": int(tot["runs"] / max(0.1, wall - tb) * 3600), "seeds_per_hour": int(tot["runs"] / max(0.1, wall - tb) * 3600), "runs_per_build_variant": perv,
                           "simulated_seconds": round(tot["simtime"], 1), "scheduler_steps": tot["steps"], "faults_injected": faults, "runs_with_each_fault": {k: v[1] for k, v in sorted(stats.items()) if k.startswith("fault_")},
                           "probes": {k: v[0] for k, v in sorted(stats.items()) if not k.startswith("fault_")}, "probes_at_zero": missing, "distinct_states": len(states), "state_measure": info["state"],
                           "repeat_determinism_checks": tot["repeated"], "corpus_replays": ncorp, "longest_run_s": maxrun, "runs_over_25_cpu_seconds": tot["slow"], "real_components": info["real"], "stub_components": info["stub"]},
              "assumptions": info.get("assumptions", [])}
        os.makedirs("evidence", exist_ok=True)
        with open("evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
        for l in lines: print(l)
        print("%s %s seed=%d: %d runs (%d non-trivial, %d distinct), %d states, %d switch steps, build %.1fs, total %.1fs%s" % (prop, tier, seed, tot["runs"], tot["nontrivial"], len(fins), len(states), tot["steps"], tb, wall, " PROBES AT ZERO: " + ",".join(missing) if missing else ""))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    a = sys.argv[1:]
    try:
        if a[0] == "build": print(B.build(a[1] if len(a) > 1 else "rag")); return 0
        if a[0] == "replay": return replay_cmd(os.path.abspath(a[1]))
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except RuntimeError as e:
        print("ERROR " + str(e)); return 2
if __name__ == "__main__":
    sys.exit(main())
