"""One plan per property: which specification runs, which conformance bindings, how much."""
from vlib import *
from engine import *

PLANS = {}
SMALL = ["--small"]   # tiny sets around container and 2^32 boundaries: many more of them
EXACT = ["--exact"]   # one container, unions of atoms exactly at (or one off) the representation thresholds


def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


def T(quick, thorough):
    return thorough if THOROUGH else quick


def W(**kw):
    """weighted operation list"""
    out = []
    for k, n in kw.items():
        out += [k.rstrip("_")] * n
    return out


BASE32 = W(build=3, ofA=1, addA=1, addR=1, opt=2, unopt=1, copy=1, cow=1, ser=1, shrink=1)
BASE64 = W(build=3, ofA=1, addA=1, addR=1, opt=2, copy=1, ser=1, shrink=1)
ALG32 = "and or xor andnot iand ior ixor iandnot orm orheap xorm lor lior lxor lixor repair repair repair".split()
ALG32P = "and or xor andnot iand ior ixor iandnot orm orheap xorm lorR liorR lxorR lixorR".split()
CMP = "eq sub ssub isect cand cor cxor candnot jac".split()
UPD32 = "addA addA addA remA remA remA addR addR remR remR iflip flip clear new ofA build fromR fromS over".split()
UPD64 = "addA addA addA remA remA remA addR addR remR remR iflip flip clear new ofA build fromR fromS conv".split()
QRY32 = "has hasR cardR isectR rank rankM sel selp idx min max empty card page arr iter stat".split()
QRY64 = "has hasR cardR isectR rank sel selp idx min max empty card arr iter walk stat".split()
ALG64 = "and or xor andnot iand ior ixor iandnot flip iflip".split()


CPP32 = ("and or xor andnot iand ior ixor iandnot flip iflip orm eq sub ssub isect cand cor cxor candnot jac addA addA remA remA addR remR clear new ofA "
         "build build build copy assign assign move swap has hasR rankM page rank sel selp idx min max empty card arr iter walk walk opt opt unopt shrink cow ser ser").split()
CPP64 = ("and or xor andnot iand ior ixor iandnot flip iflip orm eq eq sub ssub addA addA remA remA addR addR remR clear new ofA "
         "build build build build copy assign assign move swap has rank sel selp idx min max empty card arr iter walk walk walk opt opt unopt shrink cow ser ser").split()


@plan("C01")
def c01(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", ALG32P, conc=T(8, 200))
    p.pairs("r32", ALG32P, conc=T(50, 1500), flags=SMALL)
    p.pairs("r32", ALG32P, conc=T(30, 1000), flags=EXACT)
    p.hist("r32", BASE32 + ALG32 * 2, num=T(120, 600), conc=T(6, 30))
    p.wide("w32", W(build=4, ofA=2, opt=1, shrink=1) + ALG32P * 2, conc=T(1, 12))
    if THOROUGH:
        p.pairs("r32", ALG32P, conc=20, variants=("avx2", "scalar"))
        p.pairs("r32", [x for x in ALG32P if x not in ("orm", "orheap", "xorm")], S=3, C=2, conc=20, laws=False)
    p.run()


@plan("C02")
def c02(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", CMP, conc=T(30, 500))
    p.pairs("r32", CMP, conc=T(100, 3000), flags=SMALL)
    p.pairs("r32", CMP, conc=T(60, 2000), flags=EXACT)
    p.hist("r32", BASE32 + CMP * 2 + ["remA", "and", "ior"], num=T(120, 600), conc=T(6, 30))
    p.wide("w32", W(build=6, copy=2, remA=1, addA=1, iand=1, ior=1, opt=1) + CMP * 3, conc=T(1, 12))
    if THOROUGH:
        p.pairs("r32", CMP, conc=60, variants=("avx2", "scalar"))
        p.pairs("r32", CMP, S=3, C=2, conc=40, laws=False)
    p.run()


@plan("C03")
def c03(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", sorted(set(UPD32)), conc=T(8, 200))
    p.pairs("r32", sorted(set(UPD32)), conc=T(40, 1200), flags=SMALL)
    p.pairs("r32", "addA remA ofA".split(), conc=T(6, 200), flags=EXACT)
    p.pairs("r32", "addR remR iflip flip".split(), conc=T(40, 1200), flags=EXACT + ["--dense"])
    p.hist("r32", BASE32 + UPD32 * 2, num=T(120, 600), conc=T(6, 30))
    p.wide("w32", UPD32 + ["opt", "build"], conc=T(1, 12))
    if THOROUGH:
        p.pairs("r32", sorted(set(UPD32) - {"addA", "remA"}), S=3, C=2, conc=60, laws=False)
    p.run()


@plan("C04")
def c04(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", QRY32, conc=T(16, 300))
    p.pairs("r32", QRY32, conc=T(60, 2000), flags=SMALL)
    p.hist("r32", BASE32 + QRY32 * 2 + ["remA", "remR", "iflip"], num=T(120, 600), conc=T(6, 30))
    p.wide("w32", W(build=8, remA=1, remR=1, iflip=1, opt=2) + QRY32 * 2, conc=T(1, 12))
    if THOROUGH:
        p.pairs("r32", sorted(set(QRY32) - {"has"}), S=3, C=2, conc=60, laws=False)
    p.run()


@plan("C05")
def c05(pid, cover):
    p = SetPlan(pid, cover)
    ops = BASE32 * 2 + ALG32 + CMP + UPD32 + QRY32 + W(opt=4, unopt=2, shrink=2, cow=1, view=1, walk=1)
    p.hist("r32", ops, num=T(240, 1200), conc=T(6, 30))
    p.wide("w32", [x for x in ops if x in ALG32P or x not in ALG32], num=T(60, 400), conc=T(1, 12))
    p.pairs("r32", "opt unopt shrink copy ser".split(), conc=T(60, 600))
    p.pairs("r32", "opt unopt and or xor andnot iand ior ixor iandnot".split(), conc=T(25, 600), flags=EXACT)
    p.run()


@plan("C06")
def c06(pid, cover):
    p = SetPlan(pid, cover)
    p.cursor("it32", T(3, 4), T(200, 1500), T(12, 60), econc=T(6, 20))
    p.pairs("r32", "walk iter arr".split(), conc=T(60, 800))
    p.hist("r32", BASE32 + W(walk=6, iter=3, arr=1, view=2, remA=1, iflip=1), num=T(80, 400), conc=T(6, 30))
    p.wide("w32", W(build=6, walk=10, iter=2, view=1, remA=1, iflip=1, opt=1), conc=T(1, 12))
    p.run()


@plan("C07")
def c07(pid, cover):
    p = SetPlan(pid, cover)
    p.hist("r32", BASE32 + W(ser=8, view=6, and_=1, or_=1, iand=1, eq=2, has=1, rank=1, sel=1, walk=1, min=1, max=1, cardR=1, arr=1, page=1, opt=2,
           unopt=1, shrink=2, cow=1, remA=1), num=T(160, 600), conc=T(6, 30))
    p.pairs("r32", "ser view".split(), conc=T(120, 1200))
    p.pairs("r32", "ser view".split(), conc=T(200, 3000), flags=SMALL)
    p.pairs("r32", "ser view".split(), conc=T(60, 1200), flags=EXACT)
    p.wide("w32", W(build=6, ser=8, view=5, eq=1, rank=1, sel=1, walk=1, iand=1, opt=1), num=T(60, 400), conc=T(1, 12))
    p.run()


@plan("C10")
def c10(pid, cover):
    p = SetPlan(pid, cover)
    share = W(copy=6, over=2, cow=1)
    ops = BASE32 + ALG32 + "eq sub isect cand has rank page arr iter walk stat ser new".split() + UPD32 + W(opt=2, unopt=1, shrink=1) + share
    p.hist("r32", ops, num=T(160, 800), conc=T(6, 30), N=6, flags=["--cow"])
    p.pairs("r32", ALG32P + sorted(set(UPD32)) + ["opt", "unopt", "shrink", "page", "ser", "copy", "conv"], conc=T(5, 120), flags=["--cow"])
    p.pairs("r32", ALG32P + sorted(set(UPD32)) + ["opt", "unopt", "shrink", "page", "ser", "copy", "conv"], conc=T(25, 600), flags=["--cow"] + SMALL)
    p.hist("r32", ops, num=T(60, 300), conc=T(4, 20), N=4)
    p.hist("cpp32", CPP32 + W(copy=4, assign=4, move=2, swap=1), num=T(60, 300), conc=T(4, 20), flags=["--cow"])
    p.hist("cpp64", CPP64 + W(copy=4, assign=4, move=2, swap=1), num=T(60, 300), conc=T(4, 20), flags=["--cow"])
    p.hist("r64", BASE64 + ALG64 + UPD64 + W(copy=6), num=T(60, 300), conc=T(4, 20))
    p.run()


@plan("C13")
def c13(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r64", ALG64 + CMP, conc=T(12, 300))
    p.pairs("r64", ALG64 + CMP, conc=T(50, 1500), flags=SMALL)
    p.pairs("r64", ALG64 + CMP, conc=T(20, 600), flags=EXACT)
    p.hist("r64", BASE64 + ALG64 + CMP, num=T(120, 600), conc=T(6, 30))
    p.wide("w64", W(build=4, opt=1, shrink=1) + ALG64 + CMP, conc=T(1, 12))
    p.run()


@plan("C14")
def c14(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r64", sorted(set(UPD64)), conc=T(8, 200))
    p.pairs("r64", sorted(set(UPD64)), conc=T(40, 1200), flags=SMALL)
    p.pairs("r64", "addA remA ofA".split(), conc=T(6, 200), flags=EXACT)
    p.pairs("r64", "addR remR iflip flip".split(), conc=T(40, 1200), flags=EXACT + ["--dense"])
    p.hist("r64", BASE64 + UPD64 * 2, num=T(120, 600), conc=T(6, 30))
    p.wide("w64", UPD64 + ["opt", "build", "build"], conc=T(1, 12))
    p.run()


@plan("C15")
def c15(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r64", QRY64, conc=T(10, 300))
    p.pairs("r64", QRY64, conc=T(60, 2000), flags=SMALL)
    p.hist("r64", BASE64 + QRY64 * 2 + ["remA", "remR", "iflip", "view"], num=T(100, 600), conc=T(6, 30))
    p.wide("w64", W(build=8, remA=1, remR=1, iflip=1, opt=2) + QRY64 * 2, num=T(60, 400), conc=T(1, 12))
    p.cursor("it64", T(3, 4), T(160, 1500), T(10, 60), econc=T(6, 20))
    p.run()


@plan("C16")
def c16(pid, cover):
    p = SetPlan(pid, cover)
    p.hist("r64", BASE64 + W(ser=8, view=8, and_=1, or_=1, iand=1, eq=2, has=1, rank=1, sel=1, walk=1, min=1, max=1, cardR=1, remA=1, opt=2, shrink=2, conv=1),
           num=T(160, 600), conc=T(6, 30))
    p.pairs("r64", "ser view opt shrink".split(), conc=T(100, 800))
    p.wide("w64", W(build=6, ser=8, view=5, eq=1, rank=1, sel=1, walk=1, iand=1, opt=1), num=T(60, 400), conc=T(1, 12))
    p.run()


@plan("C18")
def c18(pid, cover):
    p = SetPlan(pid, cover)
    p.hist("cpp32", CPP32 + ["view"], num=T(160, 800), conc=T(6, 30))
    p.wide("wcpp32", CPP32, conc=T(1, 12))
    p.pairs("cpp32", "flip iflip addR remR walk rank rankM page has hasR sel idx min max eq".split(), conc=T(60, 1500), flags=SMALL)
    p.cursor("itcpp32", T(3, 4), T(80, 600), T(8, 40), econc=T(3, 10))
    p.pairs("cpp32", "and or xor andnot iand ior ixor iandnot orm eq sub ssub assign copy walk ser view addA remA idx sel rank".split(), conc=T(7, 150))
    p.run()


@plan("C19")
def c19(pid, cover):
    p = SetPlan(pid, cover)
    p.hist("cpp64", CPP64 + ["view"], num=T(160, 800), conc=T(6, 30))
    p.wide("wcpp64", CPP64, conc=T(2, 20))
    p.cursor("itcpp64", T(3, 4), T(80, 600), T(8, 40), econc=T(3, 10))
    p.pairs("cpp64", "and or xor andnot iand ior ixor iandnot orm eq sub ssub assign copy walk ser view addA remA addR remR iflip idx sel rank".split(), conc=T(6, 150))
    p.pairs("cpp64", "flip iflip addR remR walk rank sel idx has min max eq and or xor andnot".split(), conc=T(60, 1500), flags=SMALL)
    p.run()


@plan("C20")
def c20(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", ["conv"], conc=T(60, 600))
    p.pairs("r32", ["conv"], conc=T(60, 600), flags=EXACT)
    p.dense(T(3, 8), T(240, 1500), T(12, 40))
    p.run()


@plan("C22")
def c22(pid, cover):
    p = SetPlan(pid, cover)
    every = ("avx512", "avx2", "scalar")
    alg = [x for x in ALG32P if x not in ("orheap", "orm", "xorm")]
    p.pairs("r32", alg, conc=T(4, 100), variants=every, flags=["--digest"])
    p.pairs("r32", alg, conc=T(25, 700), variants=every, flags=SMALL + ["--digest"])
    p.pairs("r32", alg, conc=T(8, 250), variants=every, flags=EXACT + ["--digest"])
    p.pairs("r32", CMP + QRY32, conc=T(5, 100), variants=every, flags=["--digest"])
    p.pairs("r32", CMP + QRY32, conc=T(20, 600), variants=every, flags=SMALL + ["--digest"])
    p.pairs("r32", "eq sub isect cand cor cxor candnot conv opt unopt ser arr walk".split(), conc=T(10, 300), variants=every, flags=EXACT + ["--digest"])
    p.pairs("r32", sorted(set(UPD32)), conc=T(2, 60), variants=every, flags=["--digest"])
    p.hist("r32", BASE32 + ALG32 + CMP + UPD32 + QRY32, num=T(40, 300), conc=T(4, 20), variants=every, flags=["--digest"])
    p.hist("r64", BASE64 + ALG64 + CMP + UPD64 + QRY64, num=T(40, 300), conc=T(3, 20), variants=every, flags=["--digest"])
    p.dense(T(1, 3), T(60, 500), T(6, 20), variants=every)
    p.run()


@plan("C12")
def c12(pid, cover):
    p = SetPlan(pid, cover)
    p.pairs("r32", ["off"], S=4, C=2, conc=T(5, 300), laws=False)
    p.pairs("r32", ["off"], S=3, C=2, conc=T(60, 4000), flags=SMALL, laws=False)
    p.pairs("r32", ["off"], S=4, C=1, conc=T(160, 8000), flags=SMALL, laws=False)
    p.pairs("r32", ["off"], S=2, C=3, conc=T(40, 2000), flags=EXACT, laws=False)
    p.pairs("r32", ["off"], S=2, C=2, conc=T(60, 1500), flags=EXACT, laws=False)
    p.hist("r32", BASE32 + W(off=12, iand=1, ior=1, or_=1, xor=1, remA=1, iflip=1, flip=1, eq=1), num=T(120, 600), conc=T(6, 30))
    p.wide("w32", W(build=4, off=12, or_=1, remA=1, iflip=1, opt=1), conc=T(1, 12))

    def laws():
        cover.spec(need_ok(tlc("Offset", dict(U=T(4, 5)), spec="Spec", invariants=["Laws"], tag="offset"), "Offset"), "Offset: shift laws, every pair of sets below U, every two offsets")
    p.run(extra=[laws])


@plan("C17")
def c17(pid, cover):
    p = SetPlan(pid, cover)
    p.art(3, conc=T(3, 30), S=2, C=1)
    p.art(T(2, 3), conc=T(4, 6), S=3, C=1)
    p.art(60, num=T(300, 2000), conc=T(20, 120), S=5, C=2)
    p.art(40, num=T(100, 1000), conc=T(20, 120), S=3, C=4)
    p.pairs("r64", "and or xor andnot iand ior ixor iandnot sub eq isect addR remR flip ofA".split(), conc=T(6, 100))
    p.run()


@plan("C08")
def c08(pid, cover):
    p = SetPlan(pid, cover)
    p.format(conc=T(8000, 400000), full=THOROUGH)
    ser = "ser ser ser ser".split()
    p.hist("r32", BASE32 + ser + ALG32 + UPD32 + ["opt", "opt"], num=T(60, 400), conc=T(4, 20))
    p.hist("r64", BASE64 + ser + ALG64 + UPD64, num=T(60, 400), conc=T(4, 20))
    p.hist("cpp64", CPP64 + ser, num=T(40, 300), conc=T(3, 20))
    p.pairs("r32", ["ser", "opt"], conc=T(60, 1500), flags=EXACT)
    p.pairs("r32", ["ser", "opt"], conc=T(100, 2000), flags=SMALL)
    p.pairs("r64", ["ser", "opt"], conc=T(60, 1000), flags=SMALL)
    p.run()


@plan("C09")
def c09(pid, cover):
    p = SetPlan(pid, cover)
    p.format(conc=T(60000, 4000000), full=THOROUGH, big=THOROUGH)
    p.run()


@plan("C21")
def c21(pid, cover):
    p = SetPlan(pid, cover)
    every32 = BASE32 + ALG32 + CMP + UPD32 + QRY32 + ["over", "copy", "ser", "view", "off"]
    every64 = BASE64 + ALG64 + CMP + UPD64 + QRY64 + ["copy", "ser", "view"]
    R = ["--refuse"]
    p.hist("r32", every32, num=T(70, 500), conc=T(3, 25), flags=R)
    p.hist("r32", every32, num=T(40, 300), conc=T(3, 25), flags=R + ["--cow"])
    p.hist("r32", BASE32 + UPD32 + ["opt"] * 3, num=T(40, 300), conc=T(10, 60), flags=R + SMALL, S=4)
    p.hist("r64", every64, num=T(60, 400), conc=T(3, 25), flags=R)
    p.dense(T(1, 4), T(120, 800), T(8, 30), flags=R)
    p.hist("r32", BASE32 + UPD32 + ALG32, num=T(8, 40), conc=0, depth=20, S=3, C=2, N=3)
    p.hist("r64", BASE64 + UPD64 + ALG64, num=T(8, 40), conc=0, depth=20, S=3, C=2, N=3)
    traced = {"r32": len(p.items) - 2, "r64": len(p.items) - 1}

    def model():
        for cow in (False, True):
            cover.spec(need_ok(tlc("Alloc", dict(Objs={1, 2}, Vals=Raw('{"a"}'), Empty="e", Cow=cow, Names=set(range(1, T(3, 4) + 1))), spec="ASpec",
                                   invariants=["Accounted", "NoLeak", "OneKind"], properties=["Implements"], tag="alloc", workers=2, timeout=1500), "Alloc"),
                       "Alloc: the ownership discipline implements the ledger, cow=%s" % cow)

    def traces(exes, scripts):
        def one(b, cow, k):
            out = os.path.join(Scratch.get(), "trace_%s_%d_%d.log" % (b, cow, k))
            cmd = [exes[("avx512", b)], "--script", scripts[traced[b]], "--seed", str(SEED * 31 + k), "--conc", "1", "--cap", "400", "--start", str(k),
                   "--stride", T("4", "8"), "--refuse", "--trace", out] + ([] if b == "r64" else ["--small"]) + (["--cow"] if cow else [])
            r = run(cmd, timeout=600, env=RUN_ENV)
            if r.returncode:
                raise Violation("MISMATCH " + r.stdout[-600:], save_replay(pid, "failure.txt", " ".join(cmd) + "\n" + r.stdout, [scripts[traced[b]]]))
            parse_ok(cover)(r.stdout)
            # r32 turns copy-on-write on at times: the weaker reading of a failed copy applies
            return check_ledger(pid, cover, out, 3, b == "r32", T(30000, 300000))
        ns = parallel([lambda b=b, c=c, k=k: one(b, c, k) for b, c in (("r32", False), ("r32", True), ("r64", False)) for k in range(T(2, 8))])
        cover.notes["trace_entries_checked_by_TLC"] = sum(ns)
    p.after.append(traces)
    p.after.append(lambda exes, scripts: [demonstrate(pid, cover, exes[("avx512", b)]) for b in ("r32", "r64")])
    p.run(extra=[model])


@plan("C11")
def c11(pid, cover):
    exes, w, own = {}, {}, {}
    every32 = [o for o in BASE32 + ALG32 + CMP + UPD32 + QRY32 + W(copy=6, over=3, ser=1, view=1, off=1) if o != "cow"]
    every64 = BASE64 + ALG64 + CMP + UPD64 + QRY64 + W(copy=4, ser=1, view=1)
    small = [o for o in sorted(set(ALG32P + UPD32 + CMP + QRY32 + ["copy", "opt", "unopt", "shrink", "walk", "ser", "conv", "off"])) if o != "new"]

    def bld():
        exes.update(build([(v, b) + BACKENDS[b] for v in ("sched", "schedx") for b in ("th32", "th64")]))

    def protocol():
        ok = dict(Release=True, Fence=True, Early=False, Emit=False)
        inv = ["Safe", "Counted", "NoLeak"]
        for T_, ops, extra in [(2, 2, 1), (3, 1, 0)] + ([(2, 3, 0), (3, 2, 0), (2, 3, 1)] if THOROUGH else []):
            cover.spec(need_ok(tlc("Sharing", dict(ok, T=T_, Ops=ops, Extra=extra), spec="Spec", invariants=inv, extra_cfg="VIEW view", workers=4, timeout=3000,
                                   heap="6g", tag="proto"), "Sharing"), "Sharing: every interleaving, %d threads, %d operations each, %d further references" % (T_, ops, extra))
        for k, v in (("Release", False), ("Fence", False), ("Early", True)):   # the specification tells a broken protocol apart
            r = tlc("Sharing", dict(dict(ok, T=2, Ops=1, Extra=0), **{k: v}), spec="Spec", invariants=inv, extra_cfg="VIEW view", tag="broken")
            if "Invariant Safe is violated" not in r.out:
                raise CheckError("the protocol with %s=%s should not be safe: %s" % (k, v, r.out[-500:]))
        cover.notes["broken_protocols_refuted_by_TLC"] = 3
    gens = [lambda: w.update(h32c=gen_threads("h32c", cover, "r32", every32, T(80, 600), cow=True)),
            lambda: w.update(h32=gen_threads("h32", cover, "r32", every32, T(40, 300))),
            lambda: w.update(h64=gen_threads("h64", cover, "r64", every64, T(40, 300))),
            lambda: w.update(two=gen_threads("two", cover, "r32", every32, T(20, 100), T=2, N=3, S=3, C=2, cow=True, phase=8)),
            lambda: w.update(w2=gen_schedules("w2", cover, 2, 2)),
            lambda: w.update(w3=gen_schedules("w3", cover, 3, 1)),
            lambda: w.update(pairs=gen_script("r32", "pairs1", small, cover, True, 2, 1, 3))]
    parallel([bld, protocol] + gens)
    log("scripts ready")
    pool = Pool(pid, cover)

    def add(variant, prog, what, args, conc, n, files=()):
        for st in range(n):
            pool.add([exes[(variant, prog)]] + args + ["--seed", str(SEED * 104729 + st * 31), "--conc", str(conc), "--start", str(st), "--stride", str(n), "--budget",
                      T("60", "1500")], what, parse_ok(cover), files=files, timeout=T(600, 3000))
    for v, k in (("sched", 1), ("schedx", 2)):
        for flags in ([], ["--small"]) if v == "sched" or THOROUGH else (["--small"],):
            add(v, "th32", "threads, copy-on-write", ["--script", w["h32c"], "--cow", "--cap", "8000"] + flags, T(4, 60) // k, CPUS, [w["h32c"]])
            add(v, "th32", "threads, no copy-on-write", ["--script", w["h32"], "--cap", "8000"] + flags, T(2, 30) // k, CPUS // 2, [w["h32"]])
            add(v, "th64", "threads, 64-bit", ["--script", w["h64"], "--cap", "8000"] + flags, T(2, 30) // k, CPUS // 2, [w["h64"]])
            add(v, "th32", "two threads, copy-on-write", ["--script", w["two"], "--cow", "--threads", "2", "--cap", "8000"] + flags, T(6, 80) // k, CPUS // 2, [w["two"]])
            add(v, "th32", "every order of two threads", ["--script", w["pairs"], "--words", w["w2"], "--threads", "2", "--cap", "6000"] + flags, T(8, 500) // k, CPUS, [w["pairs"], w["w2"]])
            add(v, "th32", "every order of three threads", ["--script", w["pairs"], "--words", w["w3"], "--threads", "3", "--cap", "6000"] + flags, T(8, 500) // k, CPUS,
                [w["pairs"], w["w3"]])
        for b in ("th32", "th64"):
            add(v, b, "first calls of a process", ["--first"], T(40, 400), 1)
    pool.run()
    log("replayed", cover.traces, "behaviours,", cover.calls, "calls")

    def trace(i, prog, args):
        def f():
            out = os.path.join(Scratch.get(), "race_%d.log" % i)
            cmd = [exes[("sched", prog)]] + args + ["--small", "--record", out, "--conc", "1", "--seed", str(SEED * 7 + i)]
            r = run(cmd, timeout=600, env=RUN_ENV)
            if r.returncode:
                raise Violation("MISMATCH " + r.stdout[-600:], save_replay(pid, "failure.txt", " ".join(cmd) + "\n" + r.stdout))
            n = check_race(pid, cover, out, limit=T(6000, 20000))
            os.remove(out)
            return n
        return f
    ns = parallel([trace(0, "th32", ["--script", w["two"], "--cow", "--threads", "2"]), trace(1, "th32", ["--script", w["h32c"], "--cow", "--stride", "16"]),
                   trace(2, "th64", ["--script", w["h64"], "--stride", "16"]), trace(3, "th32", ["--script", w["h32"], "--stride", "16"]),
                   trace(4, "th32", ["--script", w["pairs"], "--words", w["w2"], "--threads", "2"]), trace(5, "th32", ["--script", w["pairs"], "--words", w["w3"], "--threads", "3"])])
    cover.notes["recorded_accesses_checked_by_TLC"] = sum(ns)


def _t(spec, how):
    return "model-based testing from the TLA+ specification %s: %s; every behaviour is replayed on the real code under many concretizations" % (spec, how)


CUR = "TLC enumerates every short cursor history and simulates long ones"
TECH = {
    "C06": _t("spec/Cursor.tla (and spec/SetMachine.tla)", CUR),
    "C15": _t("spec/SetMachine.tla and spec/Cursor.tla", "TLC enumerates every value with every query and argument and every short cursor history, and simulates long histories"),
    "C12": _t("spec/SetMachine.tla (action off) and spec/Offset.tla", "TLC checks the shift laws and enumerates every value with every boundary shifted up or down"),
    "C17": _t("spec/ArtMap.tla", "TLC enumerates every short history of the ordered map with its iterator and simulates long ones"),
    "C20": _t("spec/Dense.tla (and the conversions of spec/SetMachine.tla)", "TLC enumerates every pair of small bitsets with every call and argument and simulates long histories"),
    "C22": "model-based differential replay: the behaviours TLC generates from spec/SetMachine.tla and spec/Dense.tla are replayed on builds of the code for each "
           "instruction set (selected at run time or compiled out), each checked against the specification and their byte transcripts against each other",
}
TECH["C08"] = _t("spec/Format.tla", "TLC encodes every small document in every legal layout and checks round-trip and prefix laws; the library reads and writes them, and every byte string it writes during replayed histories is parsed by the same specification")
TECH["C09"] = _t("spec/Format.tla", "TLC classifies every document (interchange, native and zero-copy form), every truncation and every byte corruption of it as acceptable or malformed, with the value it denotes; each string is given to every bounded reader in a block of exactly its size")
TECH["C21"] = ("TLC checks the ownership discipline of spec/Alloc.tla against the allocation ledger of spec/Ledger.tla, and checks recorded logs of hook calls of the real code "
               "against Ledger.tla; behaviours of spec/SetMachine.tla and spec/Dense.tla are replayed with every allocation of the failure-reporting calls refused in turn")
TECH["C11"] = ("TLC checks the reference counting protocol of spec/Sharing.tla with the C11 happens-before order in every interleaving; the orders it allows, and histories of several "
               "threads simulated from spec/Threads.tla, are replayed on the real code under a scheduler that takes every plain and atomic access of the library; recorded executions are "
               "checked by TLC against spec/Race.tla")
