"""Shared machinery of the checks: building /repo, running TLC, converting TLC
behaviours into scripts, running replayers in parallel, evidence, verdicts."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
T0 = time.time()
CPUS = min(8, os.cpu_count() or 1)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class CheckError(Exception):
    """The check itself could not do its work (not a verdict on the code)."""


class Violation(Exception):
    def __init__(self, message, replay=None):
        super().__init__(message)
        self.replay = replay


# ---------------------------------------------------------------- building --
# One variant per dispatch path of the library, all with AddressSanitizer;
# 'tsan' for the concurrency check.
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
SCHED = ["--param", "tsan-instrument-func-entry-exit=0", "-U_FORTIFY_SOURCE", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset",
         "-fno-builtin-memcmp"]
WRAP = ["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-Wl,--wrap=memcmp"]
VARIANTS = {
    "avx512": dict(cflags=["-O1", "-g"] + ASAN, link=ASAN),
    "avx2": dict(cflags=["-O1", "-g", "-DCROARING_COMPILER_SUPPORTS_AVX512=0"] + ASAN, link=ASAN),
    "scalar": dict(cflags=["-O1", "-g", "-DROARING_DISABLE_X64=1"] + ASAN, link=ASAN),
    "rel": dict(cflags=["-O3", "-g", "-DNDEBUG"], link=[]),
    # instrumented for harness/sched.cc, which takes the place of the sanitizer's run time
    "sched": dict(cflags=["-O1", "-g", "-fsanitize=thread", "-DROARING_DISABLE_X64=1"] + SCHED, hflags=["-O2", "-g"], link=WRAP),
    "schedx": dict(cflags=["-O1", "-g", "-fsanitize=thread"] + SCHED, hflags=["-O2", "-g"], link=WRAP),
}


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    h.update(json.dumps(VARIANTS, sort_keys=True).encode())
    return h.hexdigest()[:20]


_HASH = None
_HHASH = None


def harness_hash():
    global _HHASH
    if _HHASH is None:
        _HHASH = tree_hash(HARNESS)[:8]
    return _HHASH


def build_dir():
    global _HASH
    if _HASH is None:
        _HASH = tree_hash(*(os.path.join(REPO, x) for x in ("src", "include", "cpp")))
    d = os.path.join(BUILD, _HASH)
    os.makedirs(d, exist_ok=True)
    return d


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                          errors="replace", **kw)


def c_sources():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if f.endswith(".c"):
                out.append(os.path.join(d, f))
    return sorted(out)


def _compile(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    r = run(cmd + ["-o", out + ".tmp%d" % os.getpid()])
    if r.returncode:
        return r.stdout
    os.replace(out + ".tmp%d" % os.getpid(), out)
    return None


class BuildLock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        # keep the cache small: only the newest few trees
        ds = sorted((e for e in os.scandir(BUILD) if e.is_dir() and len(e.name) == 20), key=lambda e: e.stat().st_mtime)
        for e in ds[:-3]:
            if e.name != os.path.basename(build_dir()):
                shutil.rmtree(e.path, ignore_errors=True)
        return self

    def __exit__(self, *a):
        self.f.close()


def libs_jobs(variant):
    v = VARIANTS[variant]
    d = os.path.join(build_dir(), variant)
    os.makedirs(d, exist_ok=True)
    jobs = []
    for s in c_sources():
        o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        extra = v.get("cinclude", [])
        jobs.append((["gcc", "-std=c11", "-w"] + v["cflags"] + extra + ["-I", os.path.join(REPO, "include"), "-c", s], o))
    return jobs


def prog_path(variant, name):
    return os.path.join(build_dir(), variant, "prog_%s_%s" % (name, harness_hash()))


def prog_jobs(variant, name, src, defs=()):
    """objects of the harness program"""
    v = VARIANTS[variant]
    d = os.path.join(build_dir(), variant)
    jobs, objs = [], []
    for s in src:
        o = os.path.join(d, "h_%s_%s_%s.o" % (name, harness_hash(), s.replace(".", "_")))
        p = os.path.join(HARNESS, s)
        cc = ["gcc", "-std=c11"] if s.endswith(".c") else ["g++", "-std=c++17"]
        jobs.append((cc + ["-w"] + v.get("hflags", v["cflags"]) + list(defs) + ["-I", os.path.join(REPO, "include"), "-I",
                     os.path.join(REPO, "cpp"), "-I", HARNESS, "-c", p], o))
        objs.append(o)
    return jobs, objs


def build(progs):
    """progs: list of (variant, name, sources, defs); returns {(variant,name): path}"""
    with BuildLock():
        jobs, links, out = [], [], {}
        seen = set()
        for variant, name, src, defs in progs:
            if variant not in seen:
                seen.add(variant)
                jobs += libs_jobs(variant)
            j, objs = prog_jobs(variant, name, src, defs)
            jobs += j
            exe = prog_path(variant, name)
            out[(variant, name)] = exe
            libobjs = [o for _, o in libs_jobs(variant)]
            links.append((["g++"] + VARIANTS[variant]["link"] + objs + libobjs + ["-lpthread"], exe))
        # big harness objects first
        jobs.sort(key=lambda j: 0 if "/h_" in j[1] else 1)
        with ThreadPoolExecutor(CPUS) as ex:
            for r in ex.map(_compile, jobs):
                if r:
                    raise CheckError("compilation failed:\n" + r[-4000:])
            for r in ex.map(_compile, links):
                if r:
                    raise CheckError("link failed:\n" + r[-4000:])
    log("built", len(jobs), "objects,", len(links), "programs")
    return out


# --------------------------------------------------------------------- TLC --
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Scratch:
    """scratch directory of this check run"""
    path = None

    @classmethod
    def get(cls):
        if cls.path is None:
            os.makedirs(os.path.join(VERIF, ".scratch"), exist_ok=True)
            cls.path = tempfile.mkdtemp(prefix="run", dir=os.path.join(VERIF, ".scratch"))
        return cls.path

    @classmethod
    def drop(cls):
        if cls.path:
            shutil.rmtree(cls.path, ignore_errors=True)
            cls.path = None


def tlaval(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tlaval(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tlaval(x) for x in v)) + "}"
    raise TypeError(v)


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        m = re.findall(r"Progress: (\d+) states checked", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1])
        self.ok = ("No error has been found" in out) or ("Finished in" in out and "Error:" not in out)


def tlc(module, consts=None, spec=None, invariants=(), properties=(), extra_cfg="", simulate=None, depth=None, seed=None,
        workers=1, timeout=600, heap="2g", defs="", postcondition=None, files=(), deadlock=False, tag=""):
    """Runs TLC on spec/<module>.tla through a generated MC module in the scratch directory."""
    d = tempfile.mkdtemp(prefix="tlc%s_" % tag, dir=Scratch.get())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in files:
        shutil.copy(f, d)
    body, cfg = [], []
    for k, v in (consts or {}).items():
        body.append("const_%s == %s" % (k, v if isinstance(v, Raw) else tlaval(v)))
        cfg.append("CONSTANT %s <- const_%s" % (k, k))
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n%s\n%s\n====\n" % (module, "\n".join(body), defs))
    if spec:
        cfg.insert(0, "SPECIFICATION " + spec)
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for p in properties:
        cfg.append("PROPERTY " + p)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
    cfg.append(extra_cfg)
    open(os.path.join(d, "MC.cfg"), "w").write("\n".join(cfg) + "\n")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss32m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", "MC.cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
    cmd.append("MC.tla")
    t = time.time()
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=" + d)
    try:
        r = run(cmd, timeout=timeout, cwd=d, env=env)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    res = TlcResult(r.stdout, r.returncode, time.time() - t)
    res.dir = d
    return res


class Raw(str):
    pass


def need_ok(res, what):
    if not res.ok:
        raise CheckError("TLC failed on %s:\n%s" % (what, "\n".join(l for l in res.out.splitlines() if not l.startswith('"<<'))[-3000:]))
    return res


TOK = re.compile(r'[A-Za-z_][A-Za-z_0-9]*|-?\d+')


def tlc_lines(out, *tags):
    """tuples printed by PrintT(ToString(<<"TAG", ...>>)) as token lists"""
    pre = tuple('"<<\\"%s\\"' % t for t in tags)
    for line in out.splitlines():
        if line.startswith(pre):
            yield TOK.findall(line)


def convert_set_script(outs, S, C, N, path, pairs=False):
    """SetMachine output -> script for the replayers. Returns number of behaviours, calls."""
    nb = nc = 0
    calls = {}
    with open(path, "w") as f:
        f.write("H %d %d %d\n" % (S, C, N))
        for out in outs:
            last = 1 << 30
            pre = None
            for t in tlc_lines(out, "EV", "PRE"):
                if t[0] == "PRE":
                    pre = t[1:]
                    continue
                step = int(t[1])
                if pairs or step <= last:
                    f.write("B\n")
                    nb += 1
                if pairs:
                    f.write("P " + " ".join(pre) + "\n")
                last = step
                op = t[2]
                i = t.index("L", 3)
                n = int(t[i + 1])
                lst = t[i + 2:i + 2 + n]
                j = i + 2 + n
                assert t[j] == "R", t
                k = t.index("S", j)
                ret = t[j + 2:k]
                f.write("E %d %s %s %d %s %s %d %s %s\n" % (step, op, " ".join(t[3:i]), n, " ".join(lst), t[j + 1], len(ret),
                                                         " ".join(ret), " ".join(t[k + 1:])))
                nc += 1
                calls[op] = calls.get(op, 0) + 1
    return nb, nc, calls
