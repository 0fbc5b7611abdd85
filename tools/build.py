"""Builds the simulator from /repo's working tree into /verif/build (content-keyed, nothing else is written)."""
import os, sys, glob, hashlib, subprocess, concurrent.futures, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

WRAP = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "posix_memalign", "aligned_alloc", "memalign",
        "rand", "srand", "random", "srandom", "rand_r", "drand48", "lrand48", "time", "clock", "gettimeofday", "clock_gettime", "getpid",
        "g_get_monotonic_time", "g_get_real_time", "g_random_int", "g_random_double",
        "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_spin_lock", "pthread_spin_unlock", "pthread_spin_trylock", "pthread_rwlock_rdlock",
        "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "g_mutex_lock", "g_mutex_unlock", "g_mutex_trylock", "g_rec_mutex_lock", "g_rec_mutex_unlock", "g_rec_mutex_trylock",
        "g_once_init_enter", "g_once_init_leave", "g_once_init_enter_pointer", "g_once_init_leave_pointer",
        "__assert_fail", "exit", "abort"]
WRAP_GEGL = ["gegl_buffer_set_extent", "gegl_buffer_iterator_new", "gegl_buffer_iterator_next", "gegl_buffer_iterator_stop", "gegl_malloc"]
WRAP_MEM = ["memset", "memcpy", "memmove"]

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]

def pkg(*a):
    return sh(["pkg-config"] + list(a)).split()

VAR = {
    "r": dict(lib=["-O1", "-g", "-fopenmp", "-fsanitize=thread", "-DMYPAINT_TILE_SIZE=16", "-fno-builtin-memset", "-fno-builtin-memcpy", "-fno-builtin-memmove"],
              har=["-O2", "-g1", "-DSIM_RACE", "-DMYPAINT_TILE_SIZE=16"], link=["-no-pie"]),
    "g": dict(lib=["-O1", "-g", "-fopenmp", "-fsanitize=thread", "-DMYPAINT_TILE_SIZE=16", "-fno-builtin-memset", "-fno-builtin-memcpy", "-fno-builtin-memmove"],
              har=["-O2", "-g1", "-DSIM_RACE", "-DSIM_GEGL", "-DMYPAINT_TILE_SIZE=16"], link=["-no-pie"]),
    "a": dict(lib=["-O1", "-g", "-fopenmp", "-fsanitize=address,bounds,alignment,null,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
              har=["-O1", "-g1", "-DSIM_ASAN"], link=["-no-pie", "-fsanitize=address,undefined", "-static-libasan"]),
}
COMMON = ["-fno-strict-aliasing"]

def lib_sources(v):
    return sorted(glob.glob(REPO + "/*.c") + (glob.glob(REPO + "/gegl/*.c") + glob.glob(REPO + "/glib/*gegl*.c") if v == "g" else []))

def repo_inputs():
    pats = ["*.c", "*.h", "glib/*.c", "glib/*.h", "gegl/*.c", "gegl/*.h", "fastapprox/*.h", "generate.py", "brushsettings.json"]
    out = []
    for p in pats:
        out += [f for f in glob.glob(os.path.join(REPO, p)) if os.path.basename(f) not in ("mypaint-brush-settings-gen.h", "brushsettings-gen.h", "config.h")]
    return sorted(out)

def build(variants, verbose=False, repo_har=True):
    """returns {variant: path of simrun}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variants, verbose)

def _build(variants, verbose):
    hs = sorted(glob.glob(VERIF + "/sim/*.cpp") + glob.glob(VERIF + "/sim/props/*.cpp"))
    hh = sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/sim/config/*") + glob.glob(VERIF + "/sim/props/*.h"))
    ri = repo_inputs()
    rh = [p for p in ri if not p.endswith(".c")]
    key = digest(ri + hs + hh + [os.path.abspath(__file__)], ",".join(sorted(variants)))
    gkey = digest([REPO + "/generate.py", REPO + "/brushsettings.json"])
    gen = os.path.join(BUILD, "gen-" + gkey)
    if not os.path.exists(gen + "/ok"):
        os.makedirs(gen, exist_ok=True)
        shutil.copy(REPO + "/generate.py", gen); shutil.copy(REPO + "/brushsettings.json", gen)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable if os.path.exists(sys.executable) else "python3", "generate.py", "mypaint-brush-settings-gen.h", "brushsettings-gen.h"], cwd=gen, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise RuntimeError("generate.py failed: " + p.stdout)
        open(gen + "/ok", "w").close()
    out, jobs = {}, []
    # repo headers include the generated ones with "": the build's copy must win over a stale one in /repo
    inc = ["-I" + VERIF + "/sim/config", "-I" + gen, "-I" + REPO] + pkg("--cflags", "json-c", "glib-2.0", "gobject-2.0")
    hdrdig = digest(rh + [os.path.abspath(__file__)] + hh, gkey)
    for v in variants:
        d = os.path.join(BUILD, v); os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, "simrun-" + key)
        out[v] = exe
        if os.path.exists(exe): continue
        objs = []
        # a snapshot of the sources without the generated headers: "..." includes look beside the file first
        snap = os.path.join(BUILD, "src-" + digest(ri)); 
        if not os.path.exists(snap + "/ok"):
            for p in ri:
                q = os.path.join(snap, os.path.relpath(p, REPO)); os.makedirs(os.path.dirname(q), exist_ok=True); shutil.copy(p, q)
            open(snap + "/ok", "w").close()
        inc2 = ["-I" + VERIF + "/sim/config", "-I" + gen, "-I" + snap] + inc[3:]
        if v == "g": inc2 += ["-I" + snap + "/gegl"] + pkg("--cflags", "gegl-0.4")
        for s in lib_sources(v):
            rel = os.path.relpath(s, REPO); k = digest([s] + [p for p in ri if p.startswith(REPO + "/glib/")], hdrdig + v)
            o = os.path.join(d, rel.replace("/", "_") + "-" + k + ".o"); objs.append(o)
            if not os.path.exists(o): jobs.append((v, "lib", snap + "/" + rel, o, inc2))
        for s in hs:
            if s.startswith(VERIF + "/sim/props/") and (os.path.basename(s) == "c18.cpp") != (v == "g"): continue
            k = digest([s], hdrdig + v); o = os.path.join(d, "h_" + os.path.basename(s) + "-" + k + ".o"); objs.append(o)
            if not os.path.exists(o): jobs.append((v, "har", s, o, inc2))
        out[v] = (exe, objs)
    def run(j):
        v, kind, s, o, inc2 = j; V = VAR[v]; t = o + ".tmp.o"
        if kind == "lib":
            sh(["gcc", "-std=gnu99", "-w", "-DHAVE_CONFIG_H"] + COMMON + V["lib"] + inc2 + ["-c", s, "-o", t])
            w = []
            for f in WRAP + (WRAP_MEM if v != "a" else []) + (WRAP_GEGL if v == "g" else []): w += ["--redefine-sym", "%s=sim_%s" % (f, f.lstrip("_"))]
            sh(["objcopy"] + w + [t])
        else:
            sh(["g++", "-std=c++17", "-w"] + COMMON + V["har"] + inc2 + ["-I" + VERIF + "/sim", "-c", s, "-o", t])
        os.rename(t, o)
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, j) for j in jobs]: f.result()
    res = {}
    for v in variants:
        if isinstance(out[v], tuple):
            exe, objs = out[v]; t = exe + ".tmp"
            sh(["g++"] + VAR[v]["link"] + objs + ["-o", t] + pkg("--libs", "json-c", "glib-2.0", "gobject-2.0", *(["gegl-0.4"] if v == "g" else [])) + ["-lm", "-lpthread"])
            os.rename(t, exe); res[v] = exe
            keep = sorted(glob.glob(os.path.join(BUILD, v, "simrun-*")), key=os.path.getmtime)[:-6]
            for k in keep:
                try: os.unlink(k)
                except OSError: pass
        else: res[v] = out[v]
    return res

if __name__ == "__main__":
    import time
    t = time.time(); r = build(sys.argv[1:] or ["r", "a"]); print(r, "%.1fs" % (time.time() - t))
