"""Replaying TLC-generated behaviours of spec/SetMachine.tla on implementations."""
import json, os, re, shutil, subprocess, threading, time
from vlib import *

BACKENDS = {  # program name -> sources, defines
    "r32": (["replay_c.cc", "memory.cc"], ["-DB64=0"]),
    "r64": (["replay_c.cc", "memory.cc"], ["-DB64=1"]),
    "cpp32": (["replay_cpp.cc", "memory.cc"], ["-DB64=0"]),
    "cpp64": (["replay_cpp.cc", "memory.cc"], ["-DB64=1"]),
    "dense": (["replay_bitset.cc", "memory.cc"], []),
    "art": (["replay_art.cc", "memory.cc"], []),
    "format": (["replay_format.cc", "memory.cc"], ["-DROARING_EXCEPTIONS=1"]),
    "th32": (["replay_threads.cc", "sched.cc"], ["-DB64=0"]),
    "th64": (["replay_threads.cc", "sched.cc"], ["-DB64=1"]),
    "w32": (["replay_wide.cc", "memory.cc"], ["-DAPI=32"]),
    "w64": (["replay_wide.cc", "memory.cc"], ["-DAPI=64"]),
    "wcpp32": (["replay_wide.cc", "memory.cc"], ["-DAPI=132"]),
    "wcpp64": (["replay_wide.cc", "memory.cc"], ["-DAPI=164"]),
    "it32": (["replay_cursor.cc", "memory.cc"], ["-DAPI=32"]),
    "it64": (["replay_cursor.cc", "memory.cc"], ["-DAPI=64"]),
    "itcpp32": (["replay_cursor.cc", "memory.cc"], ["-DAPI=132"]),
    "itcpp64": (["replay_cursor.cc", "memory.cc"], ["-DAPI=164"]),
}
ALIAS = {"r32": {"iand"}, "r64": {"iand"}, "cpp32": {"iand", "over", "assign"},
         "cpp64": {"iand", "ior", "ixor", "iandnot", "assign"}, "dense": set(), "art": set(), "format": set(),
         "w32": {"iand"}, "w64": {"iand"}, "wcpp32": {"iand", "over", "assign"}, "wcpp64": {"iand", "ior", "ixor", "iandnot", "assign"}}
RUN_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
               TSAN_OPTIONS="halt_on_error=1:exitcode=66")


class Cover:
    def __init__(self):
        self.states = self.transitions = self.traces = self.calls = 0
        self.known = []      # known findings met
        self.samples, self.specs, self.opcalls, self.notes = [], [], {}, {}

    def spec(self, res, what):
        self.states += res.distinct
        self.transitions += res.generated
        self.specs.append({"what": what, "states": res.distinct, "transitions": res.generated, "wall_s": round(res.wall, 1)})


def findings(pid):
    """what known-findings.txt lists for this property"""
    pre = "known: property=%s " % pid
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return [l.strip()[len(pre):] for l in f if l.startswith(pre)]


def demonstrate(pid, cover, exe):
    """runs the recorded failures; one that the file does not list is a violation"""
    r = run([exe, "--known"], timeout=300, env=RUN_ENV)
    if r.returncode:
        raise CheckError("--known: " + r.stdout[-1000:])
    for l in r.stdout.splitlines():
        if l.startswith("FAILS "):
            f = next((k for k in findings(pid) if k.startswith(l[6:])), None)
            if f is None:
                raise Violation("MISMATCH " + l[6:], save_replay(pid, "failure.txt", r.stdout))
            cover.known.append(f)


def save_replay(pid, name, text, files=()):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    for f in files:
        shutil.copy(f, d)
    p = os.path.join(d, name)
    with open(p, "w") as fh:
        fh.write(text)
    return p


class Pool:
    """runs external commands on all CPUs; the first failing one stops the rest"""

    def __init__(self, pid, cover):
        self.pid, self.cover = pid, cover
        self.jobs = []
        self.failed = None
        self.lock = threading.Lock()
        self.procs = set()

    def add(self, cmd, what, on_ok=None, files=(), timeout=800, env=None, ok_rc=(0,)):
        self.jobs.append((cmd, what, on_ok, files, timeout, env, ok_rc))

    def _one(self, job):
        cmd, what, on_ok, files, timeout, env, ok_rc = job
        if self.failed:
            return
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                             env=env or RUN_ENV, cwd=Scratch.get())
        with self.lock:
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, _ = p.communicate()
            with self.lock:
                self.failed = self.failed or CheckError("%s did not finish within %d s: %s" % (what, timeout, out[-500:]))
            return
        finally:
            with self.lock:
                self.procs.discard(p)
        if self.failed:
            return
        with self.lock:
            if p.returncode in ok_rc:
                if on_ok:
                    on_ok(out)
                return
            if p.returncode == -9:
                self.failed = self.failed or CheckError("%s was killed" % what)
                return
            line = next((l for l in out.splitlines() if l.startswith("MISMATCH")), None)
            if line is None:
                line = next((l for l in out.splitlines() if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l), None)
            if line is None and p.returncode > 0 and p.returncode not in (1, 66):
                self.failed = self.failed or CheckError("%s: exit %d\n%s" % (what, p.returncode, out[-2000:]))
                return
            line = line or ("%s: exit %d" % (what, p.returncode))
            path = save_replay(self.pid, "failure.txt", "%s\ncommand: %s\n\n%s\n" % (what, " ".join(cmd), out[-20000:]), files)
            self.failed = self.failed or Violation(line[:600], path)
            for q in self.procs:
                if q is not p:
                    try:
                        q.kill()
                    except OSError:
                        pass

    def run(self):
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(self._one, self.jobs))
        self.jobs = []
        if self.failed:
            raise self.failed


def parse_ok(cover):
    def f(out):
        line = [l for l in out.splitlines() if l.startswith("OK")]
        if not line:
            raise CheckError("no verdict from replayer: " + out[-500:])
        kv = dict(x.split("=") for x in line[-1].split()[1:])
        cover.traces += int(kv["behaviours"])
        cover.calls += int(kv["calls"])
    return f


def gen_script(backend, name, ops, cover, pairs, S, C, N, ways=6, depth=60, num=100, dens=7, seed=None, alias=None, laws=True):
    """TLC -> script file"""
    path = os.path.join(Scratch.get(), name + ".txt")
    consts = dict(S=S, C=C, N=N, OpSeq=list(ops), AliasOps=ALIAS[backend] if alias is None else alias, Ways=ways, Dens=dens,
                  Depth=1 if pairs else depth, Exhaustive=pairs)
    if pairs:
        res = need_ok(tlc("SetMachine", consts, spec="PairSpec", invariants=["TypeOK"] + (["Laws"] if laws else []), properties=["Frame"],
                          tag=name), name)
        outs = [res.out]
    else:
        # several simulations in parallel with derived seeds
        parts = min(4, max(1, num // 25))
        per = (num + parts - 1) // parts

        def one(i):
            return need_ok(tlc("SetMachine", consts, spec="RandSpec", invariants=["TypeOK"], simulate=per, depth=depth + 1,
                               seed=(SEED if seed is None else seed) * 1000 + i + hash_name(name), tag=name), name)
        with ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(one, range(parts)))
        outs = [r.out for r in rs]
        res = rs[0]
        for r in rs[1:]:
            res.generated += r.generated
            res.distinct += r.distinct
            res.wall = max(res.wall, r.wall)
    nb, nc, calls = convert_set_script(outs, S, C, N, path, pairs=pairs)
    if nb == 0:
        raise CheckError("TLC produced no behaviours for " + name)
    cover.spec(res, "SetMachine %s: S=%d C=%d N=%d, %d behaviours, %d calls" % (
        "exhaustive pairs" if pairs else "simulated histories", S, C, N, nb, nc))
    for k, v in calls.items():
        cover.opcalls[k] = cover.opcalls.get(k, 0) + v
    if len(cover.samples) < 6:
        with open(path) as f:
            txt = f.read(4000)
        cover.samples.append({"script": name, "head": txt.split("\nB\n")[1][:1200] if "\nB\n" in txt else txt[:1200]})
    return path


SIZES = [0, 1, 2, 3, 5, 17, 64, 65, 130, 1000, 4096, 5000, 65536, 65537, 70000, 140000]


def gen_cursor(backend, name, cover, enum, num=100, depth=60):
    """spec/Cursor.tla -> script file"""
    path = os.path.join(Scratch.get(), name + ".txt")
    K = 1 if enum else 3
    cpp = backend.startswith("itcpp")
    consts = dict(Sizes=[0, 1, 2, 3] if enum else SIZES, K=K, Depth=depth, Fwd=backend == "it64", Cpp=cpp)
    if enum:
        res = need_ok(tlc("Cursor", consts, spec="EnumSpec", invariants=["TypeOK"], properties=["Dense", "Alone"], tag=name), name)
        outs = [res.out]
    else:
        parts = min(4, max(1, num // 25))

        def one(i):
            return need_ok(tlc("Cursor", consts, spec="RandSpec", invariants=["TypeOK"], simulate=(num + parts - 1) // parts, depth=depth + 1,
                               seed=SEED * 1000 + i + hash_name(name), tag=name), name)
        with ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(one, range(parts)))
        outs = [r.out for r in rs]
        res = rs[0]
        for r in rs[1:]:
            res.generated += r.generated
            res.distinct += r.distinct
    nb = 0
    with open(path, "w") as f:
        f.write("%d\n" % K)
        for out in outs:
            for t in tlc_lines(out, "CU"):
                calls = t[2:]
                assert len(calls) % 6 == 0
                f.write("%s %d %s\n" % (t[1], len(calls) // 6, " ".join(calls)))
                nb += 1
                for op in calls[::6]:
                    cover.opcalls[op] = cover.opcalls.get(op, 0) + 1
    if not nb:
        raise CheckError("TLC produced no behaviours for " + name)
    cover.spec(res, "Cursor %s: %d histories of %d calls" % ("all histories" if enum else "simulated", nb, depth))
    if len(cover.samples) < 6:
        cover.samples.append({"script": name, "head": open(path).read(600)})
    return path


def gen_dense(name, cover, enum, num=100, depth=60):
    """spec/Dense.tla -> script file"""
    path = os.path.join(Scratch.get(), name + ".txt")
    pos = {0, 63, 64, 130} if not THOROUGH else {0, 62, 63, 64, 128, 191}
    consts = dict(Pos=pos, MaxW=4, Args={0, 1, 63, 64, 65, 128, 130, 192, 256, 320, 400}, Depth=depth, BigW=40 if THOROUGH else 24)
    if enum:
        res = need_ok(tlc("Dense", consts, spec="EnumSpec", invariants=["TypeOK", "Laws"], properties=["Frame"], tag=name, workers=1), name)
        outs = [res.out]
    else:
        parts = min(4, max(1, num // 25))

        def one(i):
            return need_ok(tlc("Dense", consts, spec="RandSpec", invariants=["TypeOK"], simulate=(num + parts - 1) // parts, depth=depth + 1,
                               seed=SEED * 1000 + i + hash_name(name), tag=name), name)
        with ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(one, range(parts)))
        outs = [r.out for r in rs]
        res = rs[0]
        for r in rs[1:]:
            res.generated += r.generated
            res.distinct += r.distinct

    def runs(t, i):
        assert t[i] == "runs", t
        n = int(t[i + 1])
        lo, hi = sorted(map(int, t[i + 2:i + 2 + n])), sorted(map(int, t[i + 2 + n:i + 2 + 2 * n]))
        return "%d %s %s" % (n, " ".join(map(str, lo)), " ".join(map(str, hi))), i + 2 + 2 * n
    nb = nc = 0
    with open(path, "w") as f:
        for out in outs:
            last = 1 << 30
            for t in tlc_lines(out, "DB", "DP"):
                if t[0] == "DP":
                    a, i = runs(t, 2)
                    b, j = runs(t, i + 1)
                    pre = "P %s %s %s %s\n" % (t[1], a, t[i], b)
                    continue
                step = int(t[1])
                if enum or step <= last:
                    f.write("B\n")
                    nb += 1
                    if enum:
                        f.write(pre)
                last = step
                kind = t[8]
                if kind == "runs":
                    ret, i = runs(t, 8)
                else:
                    i = t.index("S", 9)
                    ret = "%d %s" % (i - 9, " ".join(t[9:i]))
                assert t[i] == "S", t
                b, _ = runs(t, i + 2)
                f.write("E %s %s %s %s %s\n" % (" ".join(t[1:7]), kind, ret, t[i + 1], b))
                nc += 1
                cover.opcalls[t[2]] = cover.opcalls.get(t[2], 0) + 1
    if not nb:
        raise CheckError("TLC produced no behaviours for " + name)
    cover.spec(res, "Dense %s: %d behaviours, %d calls" % ("all pairs x calls" if enum else "simulated", nb, nc))
    if len(cover.samples) < 6:
        cover.samples.append({"script": name, "head": open(path).read(600)})
    return path


ART_ENUM = "ins del first last lb seek fwd bwd iins iera shrink".split()
ART_OPS = ("ins ins ins ins iins iins iins del del set find around around first last lb lb seek seek fwd fwd fwd bwd bwd iera iera iera all shrink view empty").split()


def gen_art(name, cover, enum, num=100, depth=60, S=3, C=1):
    """spec/ArtMap.tla -> script file"""
    path = os.path.join(Scratch.get(), name + ".txt")
    consts = dict(S=S, C=C, V=1 if enum else 3, Depth=depth, OpSeq=ART_ENUM if enum else ART_OPS)
    if enum:
        res = need_ok(tlc("ArtMap", consts, spec="EnumSpec", invariants=["TypeOK", "OnKeys"], properties=["Moves"], tag=name, workers=4, timeout=1500), name)
        outs = [res.out]
    else:
        parts = min(4, max(1, num // 25))

        def one(i):
            return need_ok(tlc("ArtMap", consts, spec="RandSpec", invariants=["TypeOK", "OnKeys"], simulate=(num + parts - 1) // parts, depth=depth + 1,
                               seed=SEED * 1000 + i + hash_name(name), tag=name), name)
        with ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(one, range(parts)))
        outs = [r.out for r in rs]
        res = rs[0]
        for r in rs[1:]:
            res.generated += r.generated
            res.distinct += r.distinct
    lines = []
    for out in outs:
        for t in tlc_lines(out, "AM"):
            calls = t[1:]
            assert len(calls) % 9 == 0, t
            lines.append("%d %s\n" % (len(calls) // 9, " ".join(calls)))
            for op in calls[9::9]:
                cover.opcalls[op] = cover.opcalls.get(op, 0) + 1
    if not lines:
        raise CheckError("TLC produced no behaviours for " + name)
    lines.sort()   # several TLC workers print in any order
    with open(path, "w") as f:
        f.write("%d %d\n" % (S, C))
        f.writelines(lines)
    cover.spec(res, "ArtMap %s: %d histories of %d calls, S=%d C=%d" % ("all histories" if enum else "simulated", len(lines), depth, S, C))
    if len(cover.samples) < 6:
        cover.samples.append({"script": name, "head": lines[0][:600]})
    return path


def gen_format(name, cover, big=True, full=False, maxlen=2):
    """spec/Format.tla -> classified byte strings"""
    path = os.path.join(Scratch.get(), name + ".txt")
    res = need_ok(tlc("Format", dict(MaxLen=maxlen, Big=big, Full=full), spec="Spec", invariants=["RoundTrip", "Prefix", "Bounded"], tag=name, workers=4, timeout=1500), name)
    lines = set()
    by = {}
    for t in tlc_lines(res.out, "FD"):
        kind, what, verdict, size, n = t[1:6]
        i = t.index("V", 6)
        assert i - 6 == int(n), t[:8]
        lines.add("%s %s %s %s %s %s %s\n" % (kind, what, verdict, size, n, " ".join(t[6:i]), " ".join(t[i + 1:])))
    for l in lines:
        k = " ".join(l.split(" ", 3)[:3])
        by[k] = by.get(k, 0) + 1
    if not lines:
        raise CheckError("TLC produced no documents")
    with open(path, "w") as f:
        f.writelines(sorted(lines))
    cover.spec(res, "Format: %d classified byte strings" % len(lines))
    cover.notes["documents_by_verdict"] = by
    cover.samples.append({"script": name, "head": sorted(l for l in lines if len(l) < 200)[0]})
    return path


def ledger_log(lines):
    """log of a replayer -> entries for spec/LedgerTrace.tla: blocks and values get small names"""
    names, free, nxt, vals, out = {}, [], 0, {FNV_EMPTY: "empty"}, []
    for l in lines:
        t = l.split()
        if t[0] == "begin":
            out.append(["begin", t[1], int(t[2]), int(t[3])])
        elif t[0] == "get":
            if free:
                k = free.pop()
            else:
                k = nxt
                nxt += 1
            names[t[1]] = k
            out.append(["get", k, int(t[2])])
        elif t[0] == "ret":
            k = names.pop(t[1], -1)
            if k >= 0:
                free.append(k)
            out.append(["ret", k, int(t[2])])
        elif t[0] == "ok":
            out.append(["ok", vals.setdefault(t[1], "v%d" % len(vals))])
        elif t[0] == "holds":
            out.append(["holds", int(t[1]), vals.setdefault(t[2], "v%d" % len(vals))])
        else:
            out.append([t[0]])
    return out


FNV_EMPTY = "cbf29ce484222325"


def check_ledger(pid, cover, path, n, cow, limit):
    with open(path) as f:
        lines = [l for l, _ in zip(f, range(limit))]
    log_ = ledger_log(lines)
    name = os.path.basename(path)
    js = path + ".json"
    with open(js, "w") as f:
        f.write("\n".join(json.dumps(x) for x in log_) + "\n")
    res = tlc("LedgerTrace", dict(File=name + ".json", Regs=set(range(n)), Objs=set(range(n + 1)), Vals=Raw('{"empty"}'), Empty="empty",
                                  Cow=cow, Names={0}), spec="TSpec", invariants=["NoLeak"], deadlock=True, tag=name, timeout=700, files=[js])
    if res.ok and res.distinct == len(log_) + 1:
        cover.spec(res, "LedgerTrace: recorded log of %d entries is a behaviour of Ledger" % len(log_))
        return len(log_)
    if res.distinct == 0 or ("Error: Deadlock" not in res.out and "is violated" not in res.out):
        raise CheckError("TLC failed on the recorded log %s: %s" % (name, res.out[-2000:]))
    k = max(0, res.distinct - 1)
    raise Violation("MISMATCH the recorded log is not a behaviour of spec/Ledger.tla: entry %d %s is refused after %s" % (
        k + 1, log_[k] if k < len(log_) else "?", log_[max(0, k - 6):k]), save_replay(pid, name, "".join(lines)))


def gen_threads(name, cover, backend, ops, num, T=3, S=5, C=3, N=4, phase=14, depth=90, cow=False, ways=6):
    """spec/Threads.tla -> script file: histories of several threads"""
    path = os.path.join(Scratch.get(), name + ".txt")
    consts = dict(T=T, S=S, C=C, N=N, OpSeq=list(ops), AliasOps=ALIAS[backend], Ways=ways, Dens=7, Phase=phase, Depth=depth, Cow=cow)
    parts = min(4, max(1, num // 20))

    def one(i):
        return need_ok(tlc("Threads", consts, spec="RandSpec", invariants=["TypeOK"], properties=["Apart"], simulate=(num + parts - 1) // parts, depth=depth + 1,
                           seed=SEED * 1000 + i + hash_name(name), tag=name), name)
    with ThreadPoolExecutor(parts) as ex:
        rs = list(ex.map(one, range(parts)))
    nb = nc = 0
    with open(path, "w") as f:
        f.write("H %d %d %d\n" % (S, C, N))
        for r in rs:
            last = 1 << 30
            for t in tlc_lines(r.out, "TG", "TE"):
                step = int(t[1])
                if step <= last:
                    f.write("B\n")
                    nb += 1
                last = step
                if t[0] == "TG":
                    f.write("G %s\n" % " ".join(t[1:7]))
                    continue
                i = t.index("L", 3)
                n = int(t[i + 1])
                j = i + 2 + n
                k = t.index("S", j)
                q = t.index("T", k)
                ret = t[j + 2:k]
                f.write("T %s %d %s %s %d %s %s %d %s %s\n" % (t[q + 1], step, t[2], " ".join(t[3:i]), n, " ".join(t[i + 2:j]), t[j + 1], len(ret),
                                                               " ".join(ret), " ".join(t[k + 1:q])))
                nc += 1
                cover.opcalls[t[2]] = cover.opcalls.get(t[2], 0) + 1
    res = rs[0]
    for r in rs[1:]:
        res.generated += r.generated
        res.distinct += r.distinct
    if not nb:
        raise CheckError("TLC produced no behaviours for " + name)
    cover.spec(res, "Threads %s: %d threads, %d histories, %d calls, cow=%s" % (name, T, nb, nc, cow))
    cover.samples.append({"script": name, "head": open(path).read(800)})
    return path


def race_log(lines, keep=4, limit=12000):
    """log of harness/sched.cc -> entries for spec/Race.tla: blocks get names; of each block the places several threads touch"""
    import bisect
    starts, ends, names, out = [], {}, {}, []
    nb = 0
    fresh = "new"
    phase = None

    def block(a):
        i = bisect.bisect_right(starts, a) - 1
        if i >= 0 and a < ends[starts[i]]:
            return names[starts[i]], (a - starts[i]) // 4
        return 0, a // 4     # static data

    def flush():
        nonlocal phase
        if phase is None:
            return
        threads, atomic, chosen = {}, set(), {}
        for e in phase:
            if e[0] in ("rd", "wr", "rmw", "load", "store"):
                threads.setdefault((e[2], e[3]), set()).add(e[1])
                if e[0] not in ("rd", "wr"):
                    atomic.add((e[2], e[3]))
        for (b, g), t in sorted(threads.items()):
            c = chosen.setdefault(b, [])
            if (b, g) in atomic or (len(t) > 1 and len(c) < keep) or not c:
                c.append(g)
        for e in phase:
            if e[0] not in ("rd", "wr", "rmw", "load", "store") or e[3] in chosen[e[2]]:
                out.append(e)
        phase = None
    for l in lines:
        t = l.split()
        if t[0] == "rewind":
            flush()
            starts, ends, names, fresh = [], {}, {}, "new"
            if len(out) > limit:
                break
        elif t[0] == "phase":
            flush()
            phase = [["phase", int(t[1]), 0, 0, fresh]]
            fresh = ""
        elif t[0] == "get":
            a = int(t[2], 16)
            nb += 1
            bisect.insort(starts, a)
            ends[a] = a + max(8, int(t[3]))
            names[a] = nb
            if int(t[1]) >= 0:
                phase.append(["get", int(t[1]), nb, 0, ""])
        elif t[0] == "ret":
            if int(t[1]) >= 0:
                phase.append(["ret", int(t[1]), names.get(int(t[2], 16), 0), 0, ""])
        elif t[0] == "fence":
            phase.append(["fence", int(t[1]), 0, 0, t[3]])
        else:
            b, g = block(int(t[2], 16))
            phase.append([t[0], int(t[1]), b, g, t[3] if len(t) > 3 else ""])
    flush()
    return out


def check_race(pid, cover, path, limit=8000):
    with open(path) as f:
        lines = f.readlines()
    log_ = race_log(lines, limit=limit)
    if len(log_) < 100:
        raise CheckError("the recorded execution is empty: " + path)
    name = os.path.basename(path)
    js = path + ".json"
    with open(js, "w") as f:
        f.write("\n".join(json.dumps(x) for x in log_) + "\n")
    res = tlc("Race", dict(File=name + ".json", MaxT=4), spec="Spec", deadlock=True, tag=name, timeout=700, files=[js])
    if res.ok and res.distinct == len(log_) + 1:
        cover.spec(res, "Race: recorded execution of %d entries is ordered" % len(log_))
        return len(log_)
    if res.distinct == 0 or "Error: Deadlock" not in res.out:
        raise CheckError("TLC failed on the recorded execution %s: %s" % (name, res.out[-2000:]))
    k = max(0, res.distinct - 1)
    raise Violation("MISMATCH the recorded execution is not allowed by spec/Race.tla: entry %d %s is refused" % (k + 1, log_[k] if k < len(log_) else "?"),
                    save_replay(pid, name + ".json", "\n".join(json.dumps(x) for x in log_[max(0, k - 2000):k + 1])))


def gen_schedules(name, cover, T, ops, extra=0):
    """spec/Sharing.tla -> every order of the counter accesses of small programs"""
    path = os.path.join(Scratch.get(), name + ".txt")
    consts = dict(T=T, Ops=ops, Extra=extra, Release=True, Fence=True, Early=False, Emit=True)
    res = need_ok(tlc("Sharing", consts, spec="Spec", invariants=["Safe", "Counted", "NoLeak", "Schedules"], tag=name, workers=4, timeout=1500), name)
    words = sorted({tuple(t[2:]) for t in tlc_lines(res.out, "SC")})
    if not words:
        raise CheckError("TLC produced no schedules for " + name)
    with open(path, "w") as f:
        for w in words:
            f.write("%d %s\n" % (len(w), " ".join(w)))
    cover.spec(res, "Sharing %s: T=%d Ops=%d, %d orders of counter accesses" % (name, T, ops, len(words)))
    return path


def hash_name(s):
    import zlib
    return zlib.crc32(s.encode()) % 97


def parallel(fs):
    with ThreadPoolExecutor(max(1, len(fs))) as ex:
        return [f.result() for f in [ex.submit(g) for g in fs]]


class SetPlan:
    """a set-machine check: scripts x (backend, variant) x concretizations"""

    def __init__(self, pid, cover):
        self.pid, self.cover = pid, cover
        self.items = []
        self.after = []     # run with (exes, scripts) when everything else held

    def hist(self, backend, ops, num, conc, variants=("avx512",), S=6, C=4, N=4, depth=60, **kw):
        self.items.append(dict(kind="hist", backend=backend, ops=ops, num=num, conc=conc, variants=variants, S=S, C=C, N=N,
                               depth=depth, kw=kw))

    def pairs(self, backend, ops, conc, variants=("avx512",), S=2, C=2, N=3, **kw):
        self.items.append(dict(kind="pairs", backend=backend, ops=ops, conc=conc, variants=variants, S=S, C=C, N=N, kw=kw))

    def wide(self, backend, ops, num=100, conc=1, variants=("rel",), **kw):
        """sets of long intervals, up to the whole universe (harness/replay_wide.cc)"""
        self.hist(backend, ops, num=num, conc=conc, variants=variants, S=5, C=3, depth=40, **kw)

    def cursor(self, backend, enum_depth, num, conc, econc=3, variants=("avx512",), depth=60):
        if enum_depth:
            self.items.append(dict(kind="cenum", backend=backend, depth=enum_depth, conc=econc, variants=variants, kw={}))
        if num:
            self.items.append(dict(kind="crand", backend=backend, depth=depth, num=num, conc=conc, variants=variants, kw={}))

    def dense(self, enum, num, conc, variants=("avx512",), depth=60, flags=()):
        kw = {"flags": list(flags)}
        if enum:
            self.items.append(dict(kind="denum", backend="dense", depth=1, conc=enum, variants=variants, kw=kw))
        if num:
            self.items.append(dict(kind="drand", backend="dense", depth=depth, num=num, conc=conc, variants=variants, kw=kw))

    def art(self, depth, num=0, conc=3, S=3, C=1, variants=("avx512",)):
        self.items.append(dict(kind="arand" if num else "aenum", backend="art", depth=depth, num=num, conc=conc, variants=variants, S=S, C=C, kw={}))

    def format(self, conc, variants=("avx512",), **kw):
        """documents; conc: further random strings"""
        self.items.append(dict(kind="format", backend="format", conc=conc, variants=variants, kw={}, gen=kw))

    def run(self, extra=()):
        """extra: further callables run while building"""
        progs = sorted({(v, it["backend"]) for it in self.items for v in it["variants"]})
        exes = {}

        def bld():
            exes.update(build([(v, b) + BACKENDS[b] for v, b in progs]))

        scripts = {}

        def gen(i, it):
            def f():
                if it["kind"] == "format":
                    scripts[i] = gen_format("format_%d" % i, self.cover, **it["gen"])
                    return
                if it["kind"][0] == "d":
                    scripts[i] = gen_dense("%s_%d" % (it["kind"], i), self.cover, it["kind"] == "denum", num=it.get("num", 0), depth=it["depth"])
                    return
                if it["kind"][0] == "a":
                    scripts[i] = gen_art("%s_%d" % (it["kind"], i), self.cover, it["kind"] == "aenum", num=it["num"], depth=it["depth"], S=it["S"], C=it["C"])
                    return
                if it["kind"][0] == "c":
                    scripts[i] = gen_cursor(it["backend"], "%s_%s_%d" % (it["backend"], it["kind"], i), self.cover, it["kind"] == "cenum",
                                            num=it.get("num", 0), depth=it["depth"])
                    return
                g = {k: v for k, v in it["kw"].items() if k != "flags"}
                name = "%s_%s_%d" % (it["backend"], it["kind"], i)
                scripts[i] = gen_script(it["backend"], name, it["ops"], self.cover, it["kind"] == "pairs", it["S"], it["C"], it["N"],
                                        num=it.get("num", 0), depth=it.get("depth", 1), **g)
            return f
        parallel([bld] + [gen(i, it) for i, it in enumerate(self.items)] + list(extra))
        log("scripts ready:", self.cover.transitions, "transitions")
        pool = Pool(self.pid, self.cover)
        budget = "1500" if THOROUGH else "240"
        digests = {}

        def ok(key=None):
            f = parse_ok(self.cover)

            def g(out):
                f(out)
                if key:
                    digests.setdefault(key[1:], {})[key[0]] = re.search(r"digest=(\d+)", out).group(1)
            return g
        for i, it in enumerate(self.items):
            flags = it["kw"].get("flags", [])
            for v in it["variants"]:
                exe = exes[(v, it["backend"])]
                stride = CPUS if it["kind"] == "pairs" else CPUS * 2
                for st in range(stride):
                    cmd = [exe, "--script", scripts[i], "--seed", str(SEED * 7919 + i), "--conc", str(it["conc"]), "--start", str(st),
                           "--stride", str(stride), "--budget", budget] + list(flags)
                    if it["kind"] == "pairs":
                        cmd.append("--pairs")
                    same = "--digest" in flags and len(it["variants"]) > 1
                    if same:
                        k = cmd.index("--budget")
                        del cmd[k:k + 2]
                    pool.add(cmd, "%s/%s replay of %s" % (it["backend"], v, os.path.basename(scripts[i])),
                             ok((v, i, st) if same else None), files=[scripts[i]], timeout=3000 if THOROUGH else 700)
        pool.run()
        for f in self.after:
            f(exes, scripts)
        for (i, st), by in sorted(digests.items()):
            if len(set(by.values())) != 1:
                it = self.items[i]
                raise Violation("MISMATCH serialized bytes differ between code paths: %s, %s behaviours %d mod stride: %s" % (
                    it["backend"], os.path.basename(scripts[i]), st, by), save_replay(self.pid, "failure.txt",
                    "script %s: the digests of all serialized results differ between the code paths %s\n" % (os.path.basename(scripts[i]), by), [scripts[i]]))
        if digests:
            self.cover.notes["byte_transcripts_compared"] = len(digests)
        log("replayed", self.cover.traces, "behaviours,", self.cover.calls, "calls")
