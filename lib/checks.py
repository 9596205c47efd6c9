"""One function per property.  Each runs the exhaustive models behind it, drives the library, and has
TLC judge the recorded behaviour against the specification."""
import contextlib, json, os, re
import build, cases, run, tlc
from cases import TILES, FNS, SCHEDS, MACH, Ctx, shape, call
from core import cfg_text

ASSUME = ["dimensions and thread counts are at least 1; user block heights and widths are multiples of the register tile; packed B is 64-byte aligned",
          "AVX2 micro-kernels as generated by install.sh for tiles 6x16, 6x32, 8x16, 8x32 (the project's own build)",
          "operands are small integers, so every partial sum is exact; results are compared through a linear projection modulo 32749 that distinguishes any single wrong element"]


def judge(*parts):
    return "{%s}" % ", ".join('"%s"' % p for p in parts)


def real(c):
    return build.build(["real"], arch=c.arch)["real"]


@contextlib.contextmanager
def other(c, arch):
    """The statements inside run on another build of the library: its armv8 code (arch "arm", register tiles of its
    own) or the x86 code with more generated register tiles (arch "wide").  Yields False if that build fails."""
    tiles, was = list(TILES), c.arch
    try:
        build.build(["real"], arch=arch)
    except build.BuildError as e:      # says nothing about the property on the machine at hand
        print("note: the %s build failed, not judged: %s" % (arch, str(e)[-300:]))
        c.extra.setdefault("builds_not_judged", []).append(arch)
        yield False
        return
    c.extra.setdefault("builds", ["x86"]).append(arch)
    TILES[:], c.arch = cases.ARCH_TILES[arch], arch
    try:
        yield True
    finally:
        TILES[:], c.arch = tiles, was


def api(c, sessions, parts, **kw):
    ev = c.execute(real(c), sessions, **kw)
    return c.validate("TraceApi", cfg_text("TraceApi.cfg", Judge=judge(*parts)), sessions, ev, "public call")


def long_dims(rng, hi=6000, small=30):
    """One dimension far beyond anything the others suggest (loop bounds, strides and counters that only matter there)."""
    d = [rng.randint(1, small) for _ in range(3)]
    d[rng.randrange(3)] = rng.choice([rng.randint(hi//12, hi), 2**rng.randint(8, 12) + rng.choice([-1, 0, 1])]) if hi > 4096 else rng.randint(hi//6, hi)
    return d


def long_tiles(rng, cx, M, N, K, t):
    """User tiles as long as a long dimension may carry."""
    (mr, nr), (a, b, d) = cx.tile, t
    if M > 400 and rng.random() < .6: a = mr*rng.randint(1, -(-M//mr))
    if N > 400 and rng.random() < .6: d = nr*rng.randint(1, -(-N//nr))
    if K > 400 and rng.random() < .7: b = rng.choice([K, rng.randint(1, K), K//2, K//3, K//rng.randint(2, 8), rng.randint(K//9, K)])
    return a, b, d


def mult(rng, cx, fn=None, pmax=9, cap=150, user=None, long=.05, hi=6000, **kw):
    """One multiplication with everything chosen at random, aimed at the edges of the partition."""
    fn = fn or rng.choice(FNS)
    p = rng.choice([1, 2, 3, 4]) if rng.random() < .6 else rng.randint(1, pmax)
    sch = rng.choice(SCHEDS) if fn == "gemm" else rng.choice(["NA", "KMN"])
    if user is None:
        user = rng.random() < .5
    user = user and fn not in ("2dsmall", "test")
    M, N, K, a, b, d = shape(rng, fn, cx, p, user, cap, sch)
    if pmax > 4 and rng.random() < .04:
        p = rng.randint(10, 40)                  # more threads than cores, blocks or rows
    if rng.random() < long:
        M, N, K = long_dims(rng, hi)
        if user:
            a, b, d = long_tiles(rng, cx, M, N, K, (a, b, d))
    if user and rng.random() < .08:              # tiles larger than the matrix, or than any automatic one
        mr, nr = cx.tile
        a, b, d = rng.choice([a, mr*rng.randint(10, 120)]), rng.choice([b, rng.randint(100, 1500)]), rng.choice([d, nr*rng.randint(6, 80)])
    kw.setdefault("guard", rng.choice("es"))
    kw.setdefault("cold", rng.choice(["int", "nan", "zero"]))
    kw.setdefault("sa", rng.randint(1, 9)); kw.setdefault("sb", rng.randint(1, 9)); kw.setdefault("sc", rng.randint(1, 9))
    return dict(fn=fn, M=M, N=N, K=K, p=p, sch=sch, tiles=(a, b, d), **kw)


def line(d, cid=0):
    d = dict(d)
    fn, M, N, K, p = (d.pop(k) for k in ("fn", "M", "N", "K", "p"))
    extra = "".join(" %s=%s" % (k, d.pop(k)) for k in list(d) if k in ("keep", "q", "nest", "dyn", "sh"))
    return call(fn, cid, M, N, K, p, **d) + extra


def rctx(rng, cid=0, tile=None, mach=None):
    return Ctx(cid, mach or rng.choice(MACH), tile or rng.choice(TILES))


def family(rng):
    """Contexts that differ from the first one in a single field each."""
    mach, tile = rng.choice(MACH), rng.choice(TILES)
    fam = [(mach, tile)] + [(mach, t) for t in TILES if t != tile]
    for k, f in (("L1", 2), ("L2", 3), ("L3", 8), ("nc", 2)):
        v = mach[k]*f if rng.random() < .5 else mach[k]//f
        fam.append((dict(mach, **{k: max(v, dict(L1=3000, L2=5000, L3=6000, nc=1)[k])}), tile))
    return [Ctx(i, m, t) for i, (m, t) in enumerate(fam)]


def walk(rng, n, cap=110, entry=True):
    """A history in which every call is its predecessor with one or two things changed: what a library that keeps
    something from call to call would confuse.  Yields (context, arguments, user tiles in register tiles)."""
    fam = family(rng)
    cx = rng.choice(fam)
    d = dict(fn=rng.choice(FNS), M=rng.randint(1, cap), N=rng.randint(1, cap), K=rng.randint(1, cap), p=rng.randint(1, 6), sch="NA",
             u=(0, 0, 0), sa=1, sb=2, sc=3, al2=2, be2=0, pa=0, pb=0)
    yield fam, cx, d
    for i in range(n):
        d = dict(d)
        for q in range(1 if rng.random() < .7 else 2):
            r = rng.choice(["ctx", "ctx", "ctx", "M", "N", "K", "swap", "p", "fn", "sch", "u", "data", "ab", "pack", "same"])
            if r == "ctx":
                cx = rng.choice(fam)
            elif r in "MNK":
                d[r] = max(1, min(2*cap, rng.choice([d[r] + 1, d[r] - 1, d[r]*2, d[r]//2, rng.randint(1, cap)])))
            elif r == "swap":
                a, b = rng.sample("MNK", 2)
                d[a], d[b] = d[b], d[a]
            elif r == "p":
                d["p"] = rng.randint(1, 8)
            elif r == "fn" and entry:
                d["fn"] = rng.choice(FNS)
            elif r == "sch":
                d["sch"] = rng.choice(SCHEDS)
            elif r == "u":
                d["u"] = rng.choice([(0, 0, 0), (rng.randint(1, 4), rng.choice([1, 3, 8, 16]), rng.randint(1, 3))])
            elif r == "data":
                d[rng.choice(["sa", "sb", "sc"])] = rng.randint(1, 9)
            elif r == "ab":
                d["al2"], d["be2"] = rng.choice([2, 2, 4, 1]), rng.choice([0, 0, 2, 1])
            elif r == "pack":
                d["pa"], d["pb"] = rng.randint(0, 1), rng.randint(0, 1)
        yield fam, cx, d


def neighbours(rng, n, cap=110):
    L = []
    for fam, cx, d in walk(rng, n, cap):
        if not L:
            L = [f.line() for f in fam]
        e = dict(d)
        if e["fn"] != "gemm":
            e["pa"] = e["pb"] = 0
            if e["sch"] not in ("NA", "KMN"):
                e["sch"] = "KMN"
        u = e.pop("u") if e["fn"] not in ("2dsmall", "test") else (0, 0, 0)
        e.pop("u", None)
        e["tiles"] = (u[0]*cx.tile[0], u[1], u[2]*cx.tile[1])
        L.append(line(dict(e, guard=rng.choice("es"), cold="int"), cx.id))
    return L


def around(rng, d, share=.15):
    """Sometimes the caller is inside a parallel region of its own."""
    if rng.random() < share:
        d.update(rng.choice([dict(nest=1), dict(nest=2), dict(dyn=1)]))
    return d


def limited(rng, ses, share=.12):
    """Some of the sessions run in a process that is given fewer threads than the calls ask for."""
    for L in ses:
        if rng.random() < share:
            L.insert(0, "env OMP_THREAD_LIMIT=%d" % rng.choice([1, 2, 3, 3, 5]))
    return ses


def crowds(rng, n=10, fns=None):
    """Far more threads than machines of today have cores, with and without work for all of them."""
    ses = []
    for g in range(2):
        cx = rctx(rng)
        mr, nr = cx.tile
        L = [cx.line()]
        for i in range(n // 2):
            p = rng.choice([63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 300])
            fn = rng.choice(fns or FNS)
            sch = rng.choice(SCHEDS) if fn == "gemm" else "KMN"
            D = [rng.randint(1, 20) for _ in range(3)]
            D[rng.randrange(3)] = rng.choice([p - 1, p, p + 1, mr*p, mr*p - 1, nr*p + 1, 2*p + 3])
            t = (mr, rng.randint(1, 3), nr) if fn not in ("2dsmall", "test") and rng.random() < .6 else (0, 0, 0)
            L.append(line(dict(fn=fn, M=D[0], N=D[1], K=D[2], p=p, sch=sch, tiles=t)))
        ses.append(L)
    return ses


def big(rng):
    """A shape of a few hundred, as users have them, with a default-like machine."""
    return rng.choice([1, 2, 17, 64, 96, 127, 200, 255, 256, 300, 385, 500])


def randoms(rng, n, per, packed=0, machs=MACH, **kw):
    """n sessions of random multiplications, every other one with user-given blocks."""
    ses = []
    for s in range(n):
        cx = rctx(rng, mach=rng.choice(machs))
        L = [cx.line()]
        for i in range(per):
            d = mult(rng, cx, user=s % 2 == 0, cap=120, **kw)
            if packed:
                d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
            L.append(line(d, -1 if rng.random() < .06 and not any(d["tiles"]) else 0))
        ses.append(L)
    return ses


def vast(quick):
    """Operands, packed copies and results of more than 2^31 bytes (one at a time: several GB each)."""
    ses = []
    deep, wide = "M=18 N=16 K=40000000 %s mcu=12 kcu=5000000 ncu=16", "M=24000 N=24000 K=1 %s mcu=6000 kcu=1 ncu=1600"
    for i, (fn, sch) in enumerate([("gemm", x) for x in SCHEDS[:3]] + [("online", "KMN"), ("2d", "KMN")]):
        for k, sh in enumerate([deep, wide]):
            if not quick or k == i % 2:
                ses.append([Ctx(0, MACH[0], (6, 16)).line(), "vast fn=%s c=0 %s sch=%s seed=%d" % (fn, sh % "p=2", sch, 2*i + k)])
    return ses


# --------------------------------------------------------------------------------- C01
def c01(c):
    c.assumptions = ASSUME
    c.model("GenSound")
    c.model("MCApi")
    c.model("MCRefine")
    for _ in c.rounds():
        rng, ses = c.rng, []
        for s in range(150):
            cx = rctx(rng) if rng.random() < .6 else rctx(rng, mach=MACH[0], tile=(6, 16))
            L = [cx.line()]
            for i in range(16):
                d = mult(rng, cx, user=False, pmax=17)
                if rng.random() < .15:
                    d.update(M=rng.randint(1, 12), N=rng.randint(1, 24), K=rng.randint(1, 12), p=rng.randint(1, 20))
                L.append(line(around(rng, d), -1 if rng.random() < .08 else 0))
            ses.append(L)
        limited(rng, ses)
        for s in range(12):                      # larger shapes, blocks as on a real machine
            cx = rctx(rng, mach=rng.choice([MACH[0], MACH[4], MACH[5]]))
            ses.append([cx.line()] + [line(dict(mult(rng, cx, user=False), M=big(rng), N=big(rng), K=big(rng), p=rng.randint(1, 8))) for i in range(4)])
        # every combination of tiny dimensions for every entry point
        n = 0
        for fn in FNS:
            for sch in (SCHEDS if fn == "gemm" else ["NA"]):
                L = [rctx(rng, mach=MACH[1]).line()]
                for M in (1, 2, 7):
                    for N in (1, 3, 17):
                        for K in (1, 2, 5):
                            L.append(call(fn, 0, M, N, K, 1 + n % 7, sch, sa=1 + n % 9, sb=2 + n % 7, cold="nan")); n += 1
                ses.append(L)
        ses += crowds(rng, 24)
        if c.quick or not _:                     # an operand of more than 2^31 elements
            ses.append([Ctx(0, MACH[0], (6, 16)).line(), "big fn=gemm M=18 N=1 K=200000000 p=2 sch=KMN c=0 mcu=12 kcu=1000 ncu=16"])
        api(c, ses, ["value"])
        if c.quick or not _:
            api(c, vast(c.quick), ["value"], jobs=1, per_session=400)
        with other(c, "arm") as ok:              # the same on the armv8 build
            if ok:
                api(c, randoms(rng, 24, 12), ["value"])


# --------------------------------------------------------------------------------- C02
def c02(c):
    c.assumptions = ASSUME
    c.model("GenSound")
    c.model("MCRefine")
    for _ in c.rounds():
        rng, ses = c.rng, []
        for s in range(110):
            # one product, computed under many blockings, tiles, machines, orders and entry points
            base = rctx(rng)
            fn = rng.choice(FNS)
            d0 = mult(rng, base, fn=fn, cap=130, long=.15)
            L, nctx = [], 0
            for i in range(16):
                if i % 4 == 0:
                    cx = rctx(rng, nctx); nctx += 1
                    L.append(cx.line())
                d = mult(rng, cx, user=rng.random() < .7, fn="gemm" if rng.random() < .4 else None)
                d.update(M=d0["M"], N=d0["N"], K=d0["K"], sa=3, sb=5, sc=2)
                if any(d["tiles"]):
                    mr, nr = cx.tile
                    d["tiles"] = (mr*rng.choice([1, 2, 3, 5, 30]), rng.choice([1, 2, 3, 4, 7, 8, 13, 64, 200, 300, 600, 1000, rng.randint(1, 2000)]), nr*rng.choice([1, 2, 3, 9]))
                    d["tiles"] = long_tiles(rng, cx, d["M"], d["N"], d["K"], d["tiles"])
                L.append(line(around(rng, d), cx.id))
            ses.append(L)
        limited(rng, ses)
        for fn, sch in [("gemm", x) for x in SCHEDS[:3]] + [("online", "KMN"), ("2d", "KMN")]:      # each dimension long, in few long tiles
            cx = rctx(rng)
            mr, nr = cx.tile
            L = [cx.line()]
            for dim in range(3):
                for p in (1, 2, rng.randint(2, 5)):
                    D = [rng.randint(1, 30) for _ in range(3)]
                    D[dim] = n = rng.randint(700, 5000)
                    t = [mr*rng.randint(1, 3), rng.randint(1, 30), nr*rng.randint(1, 3)]
                    blk = max(1, n // (rng.choice([1, 2, 3])*p) - rng.choice([0, 0, 1, 7]))
                    t[(0, 2, 1)[dim]] = max(1, blk // (mr, nr, 1)[dim])*(mr, nr, 1)[dim]
                    L.append(line(dict(fn=fn, M=D[0], N=D[1], K=D[2], p=p, sch=sch, tiles=tuple(t), sa=2, sb=3, sc=4, cold="nan", guard=rng.choice("es"))))
            ses.append(L)
        for fn in FNS[:3]:
            for sch in (SCHEDS[:3] if fn == "gemm" else ["KMN"]):
                for p in (1, rng.randint(2, 7)):
                    cx = rctx(rng)
                    ses.append([cx.line()] + [line(dict(fn=fn, M=M, N=N, K=K, p=p, sch=sch, tiles=t, sa=2, sb=3, sc=4, cold="nan", guard=rng.choice("es"))) for M, N, K, t in block_edges(rng, sch, cx, p, (1, 2, 3))])
        api(c, ses, ["value"])
        with other(c, "wide") as ok:             # register tiles beyond the installed ones
            if ok:
                api(c, randoms(rng, 30, 10, machs=[MACH[0], MACH[2], MACH[5]]), ["value"])      # caches that hold such a tile


# --------------------------------------------------------------------------------- C03
def sizes(rng):
    """Plans whose packed sizes are checked, also beyond 2^31 bytes."""
    ses = []
    for s in range(12):
        cx = rctx(rng, mach=rng.choice(MACH[:6]))
        mr, nr = cx.tile
        L = [cx.line()]
        for i in range(40):
            sch = rng.choice(SCHEDS)
            p = rng.randint(1, 9)
            if rng.random() < .3:
                M, N, K = (rng.choice([20000, 33333, 46341, 50001, 65536]) for _ in range(3))
                t = ""
            else:
                M, N, K, a, b, d = shape(rng, "gemm", cx, p, rng.random() < .6, 300, sch)
                t = " mcu=%d kcu=%d ncu=%d" % (a, b, d) if a else ""
            L.append("psize c=0 M=%d N=%d K=%d p=%d sch=%s%s" % (M, N, K, p, sch, t))
        ses.append(L)
    return ses


def c03(c):
    c.assumptions = ASSUME + ["the caller's buffers have exactly the reported sizes (the byte after them is inaccessible)"]
    c.model("MCPack", cfg=pack_cfg(c.quick))
    exe = real(c)
    for _ in c.rounds():
        rng, ses = c.rng, []
        for s in range(130):
            cx = rctx(rng)
            L = [cx.line()]
            for i in range(14):
                d = mult(rng, cx, fn="gemm", cap=120)
                d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1), (1, 1)])
                if rng.random() < .3:
                    d["pp"] = rng.randint(1, 5)          # packed under another team size
                if rng.random() < .35:
                    d["al2"], d["be2"] = rng.choice([2, -2, 1, 4]), rng.choice([0, 2, 1, -4])
                L.append(line(d, -1 if rng.random() < .05 and not any(d["tiles"]) else 0))
                if rng.random() < .3:                    # the same packed operands, used again
                    k = i + 1
                    L[-1] += " keep=%d" % k
                    e = dict(d, cold="nan", al2=rng.choice([2, 4]), be2=0)
                    L.append(line(e, 0) + " keep=%d" % k)
                    if "c=-1" in L[-2]:
                        L[-2] = L[-2].replace("c=-1", "c=0")
            ses.append(L)
        for sch in SCHEDS[:3]:
            for pa, pb in ((1, 0), (0, 1), (1, 1)):
                p = rng.randint(1, 6)
                cx = rctx(rng)
                ses.append([cx.line()] + [line(dict(fn="gemm", M=M, N=N, K=K, p=p, sch=sch, tiles=t, pa=pa, pb=pb, sa=2, sb=3, sc=4, cold="nan", guard=rng.choice("es"))) for M, N, K, t in block_edges(rng, sch, cx, p)])
        api(c, ses, ["value", "frame", "res"])
        with other(c, "arm") as ok:
            if ok:
                api(c, randoms(rng, 16, 10, 1, fn="gemm"), ["value", "frame", "res"])
        ps = sizes(rng)
        ev = c.execute(exe, ps)
        c.validate("TracePlan", cfg_text("TracePlan.cfg", Judge=judge("size")), ps, ev, "reported packed size")


def pack_cfg(quick):
    s = open(os.path.join(tlc.SPEC, "MCPack.cfg")).read()
    if quick:
        s = s.replace("Ms = {1, 2, 3, 5, 7, 8, 9}", "Ms = {1, 3, 8, 9}").replace("Ns = {1, 3, 4, 6, 7}", "Ns = {1, 4, 7}").replace("Ks = {1, 2, 3, 5, 8}", "Ks = {1, 3, 5}")
    return s


# --------------------------------------------------------------------------------- C04
def c04(c):
    c.assumptions = ASSUME + ["scaling factors are multiples of one half, so scaled results stay exact"]
    c.model("GenSound")
    c.model("MCApi")
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(110):
            cx = rctx(rng)
            L = [cx.line()]
            for i in range(5):
                # a chain of accumulating calls on one C
                d0 = mult(rng, cx, cap=110)
                b, frac = i + 1, False          # frac: C may hold halves (a second halving would leave them)
                for k in range(rng.randint(1, 4)):
                    d = mult(rng, cx, fn=rng.choice(FNS + ["gemm", "gemm"]), cap=110)
                    d.update(M=d0["M"], N=d0["N"], sc=d0["sc"], cold=d0["cold"], guard=d0["guard"], cb=b)
                    d["al2"] = rng.choice([2, 2, -2, 1, 4, 0])
                    d["be2"] = rng.choice([0, 2, 2, 1, -4]) if not frac else rng.choice([0, 2, -4])
                    frac = d["al2"] % 2 == 1 or d["be2"] == 1 or (frac and d["be2"] == 2)
                    if d["fn"] == "gemm" and rng.random() < .3:
                        d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
                    L.append(line(around(rng, d, .08), -1 if rng.random() < .05 and not any(d["tiles"]) else 0))
            ses.append(L)
        limited(rng, ses)
        for sch in SCHEDS[:3]:                   # accumulation and overwriting on every kind of edge
            for be in ((2, 2), (2, 0), (1, 2), (2, -4)):
                p = rng.randint(1, 6)
                cx = rctx(rng)
                ses.append([cx.line()] + [line(dict(fn="gemm", M=M, N=N, K=K, p=p, sch=sch, tiles=t, al2=be[0], be2=be[1], sa=2, sb=3, sc=4, cold="int", guard=rng.choice("es"))) for M, N, K, t in block_edges(rng, sch, cx, p)])
        # factors close to 0 and 1, and far from them: (2*alpha, 2*beta in units of 2^-sh, sh, depth up to which sums stay exact)
        near = [(2050, 0, 10, 45), (2046, 2048, 10, 45), (2048, 2050, 10, 40), (2048, 2046, 10, 40), (8192, 2, 12, 10), (8194, 8190, 12, 10), (2, 2, 20, 300), (2, 0, 40, 300),
                (2, 8192, 12, 300), (-2048, 2, 10, 45), (6, 0, 0, 200), (-10, 6, 0, 200), (0, 6, 0, 300), (0, 2, 20, 300), (0, 0, 0, 300), (2, 2, -20, 300), (2, 0, -40, 300), (-2, -2, 0, 300), (0, 2, 0, 300), (2, -2, 0, 300)]
        for s in range(30):
            cx = rctx(rng)
            L = [cx.line()]
            for al2, be2, sh, kmax in rng.sample(near, 10):
                d = mult(rng, cx, cap=90, long=.02)
                d.update(K=min(d["K"], kmax), al2=al2, be2=be2, sh=sh)
                if be2:
                    d["cold"] = rng.choice(["int", "int", "zero"])
                if d["fn"] == "gemm" and rng.random() < .3:
                    d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
                L.append(line(d))
            ses.append(L)
        ses += histories(c, 40 if c.quick else 120, c.seed*1000 + n)
        api(c, ses, ["value", "frame"])


# ---------------------------------------------------------- histories generated by the specification
def histories(c, num, seed):
    cfg = open(os.path.join(tlc.SPEC, "GenApi.cfg")).read()
    r = tlc.run("GenApi", cfg, args=["-simulate", "num=%d" % num, "-seed", str(seed), "-depth", "60"])
    hs = set(re.findall(r'^"HIST (.*)"$', r.out, re.M))
    if not hs:
        raise tlc.TlcError("GenApi produced no history:\n" + r.out[-2000:])
    ses = []
    for h in sorted(hs):
        L, tiles = [], {-1: (6, 16)}
        for e in json.loads(h.replace('\\"', '"')):
            if e["a"] == "ctx":
                cx = Ctx(e["c"], MACH[e["mach"]], TILES[e["tile"]])
                tiles[e["c"]] = cx.tile
                L.append(cx.line())
            else:
                mr, nr = tiles[e["c"]]
                u = e["user"] if e["fn"] not in ("2dsmall", "test") else 0
                t = (mr*u, [0, 1, 3, 4, 9, 16][u], nr*(1 + u % 3)) if u >= 1 else (0, 0, 0)
                pa, pb = ((1, 0), (0, 1), (1, 1))[e["pk"] % 3] if e["fn"] == "gemm" and e["pk"] >= 3 else (0, 0)
                L.append(call(e["fn"], e["c"], e["M"], e["N"], e["K"], e["p"], e["sch"], t, e["sa"], e["sb"], e["sc"], "nan" if e["nan"] else "int",
                              e["al2"], e["be2"], pa, pb, e["b"], "es"[e["gd"]]))
        ses.append(L)
    c.extra["histories_generated_by_TLC"] = c.extra.get("histories_generated_by_TLC", 0) + len(ses)
    return ses


# --------------------------------------------------------------------------------- C07
def c07(c):
    c.assumptions = ASSUME + ["heap use is counted at malloc/calloc/realloc/posix_memalign/aligned_alloc/free, descriptors in /proc/self/fd, pipes at popen/pclose; the OpenMP runtime's own memory is not counted"]
    c.model("MCApi")
    exe = real(c)
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(90):
            cx = rctx(rng)
            L = [cx.line()]
            for i in range(14):
                d = mult(rng, cx, cap=90)
                if d["fn"] == "gemm" and rng.random() < .5:
                    d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
                if rng.random() < .5:
                    d["al2"], d["be2"] = rng.choice([2, -2, 1, 4, 0]), rng.choice([0, 2, 1, -4])
                L.append(line(d, -1 if rng.random() < .25 and not any(d["tiles"]) else 0))
            ses.append(L)
        ses += crowds(rng)
        api(c, ses, ["res"])
        us = []
        for s in range(24):
            cx = rctx(rng)
            L = [cx.line()]
            for fn in ["query", "torch", "cores", "cache", "cache", "cache", "dims", "plan", "packA", "packB", "packC", "xpose", "small"]:
                M, N, K = rng.randint(1, 60), rng.randint(1, 70), rng.randint(1, 40)
                kind = rng.choice(["1d", "2d", "small"]) if fn == "plan" else "1d"
                L.append("res fn=%s c=0 M=%d N=%d K=%d p=%d sch=%s l=%d kind=%s" % (fn, M, N, K, rng.randint(1, 6), rng.choice(SCHEDS if fn in ("dims", "plan") and kind == "1d" else SCHEDS[:3]), rng.randint(1, 3), kind))
            L += [machine(rng) for _ in range(5)] + [checker(rng) for _ in range(8)]
            us.append(L)
        ev = c.execute(exe, us)
        c.validate("TraceUnit", cfg_text("TraceUnit.cfg", Judge=judge("res")), us, ev, "resources of a call")


# --------------------------------------------------------------------------------- C08
def c08(c):
    c.assumptions = ASSUME + ["concurrent application threads that share one context all use automatic block sizes with plain operands (planning records its block ratio in the context)"]
    c.model("MCApi")
    for n in c.rounds():
        rng = c.rng
        ses = histories(c, 70 if c.quick else 200, c.seed*1000 + n + 500)
        for s in range(50):                      # the same call before and after unrelated ones
            L = []
            cs = [rctx(rng, i) for i in range(2)]
            L += [x.line() for x in cs]
            d = mult(rng, cs[0], cap=100)
            for i in range(4):
                L.append(line(d, 0))
                for j in range(rng.randint(0, 2)):
                    k = rng.randint(0, 1)
                    L.append(line(around(rng, mult(rng, cs[k], cap=140, pmax=12)), k))
            ses.append(L)
        ses += [neighbours(rng, 22) for _ in range(60)]
        limited(rng, ses)
        api(c, ses, ["value", "frame", "ctx"])
        con = []
        for s in range(24):                      # application threads multiplying at the same time
            cx = rctx(rng)
            L = [cx.line()] + [rctx(rng, i).line() for i in range(1, 4)]
            share = s % 2 == 0
            for g in range(2):
                for i in range(rng.randint(2, 4)):
                    d = mult(rng, cx, user=False, pmax=4, cap=120)
                    d["p"] = rng.choice([1, 2, 3, 4])
                    L.append(line(d, 0 if share else i) + " q=1")
                L.append("go rounds=%d" % (3 if c.quick else 12))
            con.append(L)
        api(c, con, ["value", "frame", "ctx"])


# --------------------------------------------------------------------------------- C10
def c10(c):
    c.assumptions = ["block heights and widths are multiples of the register tile", "matrices hold distinct tags, so the content of a packed buffer names the element at every place"]
    c.model("MCPack", cfg=pack_cfg(c.quick))
    for _ in c.rounds():
        packs(c, 90)
        with other(c, "arm") as ok:
            if ok:
                packs(c, 20)


def packs(c, n):
    rng, ses = c.rng, []
    for s in range(n):
        tile = rng.choice(TILES)
        cx = rctx(rng, tile=tile)
        mr, nr = tile
        L = [cx.line()]
        for i in range(8):
            p = rng.randint(1, 6)
            sch = rng.choice(SCHEDS[:3])
            user = rng.random() < .75
            op = rng.choice("ABC")
            for _ in range(20):
                M, N, K, a, b, d = shape(rng, "gemm", cx, p, user, 70, sch)
                if rng.random() < .06:
                    M, N, K = long_dims(rng, 1200, 6)
                if dict(A=M*K, B=K*N, C=M*N)[op] < 2500:
                    break
            var = "main"
            if sch == "KMN" and ((op == "A" and mr == cases.STRIPS[c.arch][0]) or (op == "B" and nr == cases.STRIPS[c.arch][1])) and rng.random() < .4:
                var = "blis"
            t = " mcu=%d kcu=%d ncu=%d" % (a, b, d) if user else ""
            L.append("pack c=0 op=%s var=%s M=%d N=%d K=%d p=%d pp=%d sch=%s guard=%s%s" % (op, var, M, N, K, p, rng.choice([p, p, 1, 2, 7]), sch, rng.choice("es"), t))
        for i in range(6):
            L.append(pob(rng, mr, nr, cases.STRIPS[c.arch]))
        ses.append(L)
    for sch in SCHEDS[:3]:
        for op in "ABC":
            for p in (1, rng.randint(2, 4)):
                cx = rctx(rng)
                ses.append([cx.line()] + ["pack c=0 op=%s var=main M=%d N=%d K=%d p=%d pp=%d sch=%s guard=%s mcu=%d kcu=%d ncu=%d" % ((op, M, N, K, p, rng.choice([p, p, 1, 3]), sch, rng.choice("es")) + t)
                                          for M, N, K, t in block_edges(rng, sch, cx, p)])
    ev = c.execute(real(c), ses)
    c.validate("TracePack", open(os.path.join(tlc.SPEC, "TracePack.cfg")).read(), ses, ev, "packed layout")


def pob(rng, mr, nr, strips=(6, 16)):
    fn = rng.choice(["A", "A", "Amb", "Amr", "Ablis", "B", "B", "Bpar", "Bnr", "Bblis", "C", "C", "Cmb"])
    R, W = rng.randint(1, 40), rng.randint(1, 50)
    if fn in ("Amr", "Ablis"):          # whole strips inside the matrix
        t = strips[0] if fn == "Ablis" else mr
        R = max(R, t)
        r0, c0 = rng.randint(0, R - t), rng.randint(0, W - 1)
        h, w, r1, c1 = t, rng.randint(1, W - c0), 0, 0
        return "pob fn=%s R=%d W=%d r0=%d c0=%d h=%d w=%d r1=0 c1=0 tr=%d tc=1 pad=0 guard=%s" % (fn, R, W, r0, c0, h, w, t, rng.choice("es"))
    if fn in ("Bnr", "Bblis"):
        t = strips[1] if fn == "Bblis" else nr
        W = max(W, t)
        r0, c0 = rng.randint(0, R - 1), rng.randint(0, W - t)
        return "pob fn=%s R=%d W=%d r0=%d c0=%d h=%d w=%d r1=0 c1=0 tr=1 tc=%d pad=0 guard=%s" % (fn, R, W, r0, c0, rng.randint(1, R - r0), t, t, rng.choice("es"))
    r0, c0 = rng.randint(0, R - 1), rng.randint(0, W - 1)
    if fn[0] == "A":
        h, w = mr*rng.randint(1, 3), rng.randint(1, W - c0)
        pad = r0 + h > R
    elif fn[0] == "B":
        h, w = rng.randint(1, R - r0), nr*rng.randint(1, 3)
        pad = c0 + w > W
    else:
        h, w = mr*rng.randint(1, 3), nr*rng.randint(1, 2)
        pad = r0 + h > R or c0 + w > W
    return "pob fn=%s R=%d W=%d r0=%d c0=%d h=%d w=%d r1=%d c1=%d tr=%d tc=%d pad=%d p=%d guard=%s" % (
        fn, R, W, r0, c0, h, w, rng.randint(0, r0), rng.randint(0, c0), mr, nr, 1 if pad else rng.randint(0, 1), rng.randint(1, 4), rng.choice("es"))


# --------------------------------------------------------------------------------- C11, C12, C13, C18
def unit(c, sessions, parts=("value",), what="", **kw):
    cfg = cfg_text("TraceUnit.cfg", Judge=judge(*parts))
    if c.arch != "x86":
        cfg = cfg.replace("TrMrs", c.arch.capitalize() + "Mrs").replace("TrNrs", c.arch.capitalize() + "Nrs")
    ev = c.execute(real(c), sessions, **kw)
    return c.validate("TraceUnit", cfg, sessions, ev, what)


def c11(c):
    c.assumptions = ASSUME + ["armv8 micro-kernels run with a stand-in arm_neon.h that does what the intrinsics are documented to do"]
    c.model("GenSound")
    c.model("MCKernel")
    for n in c.rounds():
        kernels_of(c, n, 4)
        for arch in ("arm", "wide"):     # the other generated families of register tiles
            with other(c, arch) as ok:
                if ok:
                    kernels_of(c, n, 2)


def kernels_of(c, n, groups):
    rng, ses = c.rng, []
    per = 80//groups
    for mr, nr in TILES:
        for g in range(groups):
            L = [rctx(rng, tile=(mr, nr)).line()]
            ks = list(range(1 + per*g, 1 + per + per*g)) if n == 0 else [rng.randint(1, 700) for _ in range(per)]
            for k in ks + [rng.randint(80, 600), rng.choice([rng.randint(600, 9000), 2**rng.randint(9, 13) + rng.randint(-1, 1)])] + ([rng.choice([32767, 32768, 65535, 65536, 65537, rng.randint(9000, 70000)])] if g == n % groups else []):
                for via in ("map", "uk"):
                    L.append("kern c=0 k=%d sa=%d sb=%d sc=%d via=%s guard=%s" % (k, rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 9), via, rng.choice("es")))
            ses.append(L)
    # one context taken through all the tiles, in every order
    for g in range(6):
        L = []
        for i in range(8):
            mr, nr = rng.choice(TILES)
            L += [rctx(rng, i, (mr, nr)).line(), "kern c=%d k=%d sa=1 sb=2 sc=3 via=%s" % (i, rng.randint(1, 20), rng.choice(["map", "uk"]))]
        ses.append(L)
    unit(c, ses, what="micro-kernel")


def c12(c):
    c.assumptions = ["sources hold small integers; the projection distinguishes any single wrong or unwritten element (the destination starts as not-a-number)"]
    c.model("GenSound")
    c.model("MCTranspose")
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(60):
            L = []
            for i in range(22):
                K = cases.edge(rng, 8, rng.choice([8, 16, 24]), 120)
                N = cases.edge(rng, 8, rng.choice([8, 16, 24]), 120)
                if i == 0 and s < 20:
                    K, N = rng.randint(1, 300), rng.randint(1, 300)
                elif i == 1:
                    K, N, _ = sorted(long_dims(rng, 6000, 25), key=lambda x: rng.random())
                Kt, Nt = (rng.choice([1, 4, 7, 8, 9, 15, 16, 17, 24, 31, 40, 64, 200, 512, 2000, 0]) for _ in range(2))
                L.append("xpose K=%d N=%d Kt=%d Nt=%d sa=%d p=%d guard=%s var=%s" % (K, N, Kt, Nt, rng.randint(1, 9), rng.randint(1, 8) if rng.random() < .9 else rng.randint(9, 24), rng.choice("es"), "plain" if rng.random() < .1 else "blk"))
            ses.append(L)
        ses.append(["xpose K=%d N=%d Kt=8 Nt=8 sa=2 p=%d" % (k, m, 1 + (k + m) % 5) for k in range(1, 20) for m in (1, 2, 7, 8, 9, 15, 16, 17)])
        unit(c, ses, what="transpose")
        far = [(K, N) for K, N in ((46344, 46349), (9, 2**28 + 3), (2**28 + 3, 17))]
        far = ["farx K=%d N=%d Kt=%d Nt=%d seed=%d" % (K, N, min(K, rng.choice([64, 256])), min(N, 256), rng.randint(1, 999)) for K, N in (rng.sample(far, 1) if c.quick else far)]
        if c.quick or not n:
            unit(c, [[x] for x in far], what="transpose of 2^31 elements and more", jobs=1, per_session=400)
        # the words each thread reads and writes, between the barriers
        ms = []
        for s in range(16):
            ms.append(["xpose K=%d N=%d Kt=%d Nt=%d p=%d" % (cases.edge(rng, 8, rng.choice([8, 16, 24]), 60), cases.edge(rng, 8, rng.choice([8, 16, 24]), 60), rng.choice([0, 1, 7, 8, 9, 16, 24, 40]),
                                                             rng.choice([0, 1, 7, 8, 9, 16, 24, 40]), rng.randint(1, 8)) for i in range(8)])
        mem(c, ms, ["bounds", "race"], "transpose accesses")


def machine(rng):
    s = "machine cpus=%d" % rng.choice([1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64, 96, 128, 256])
    if rng.random() < .85:
        s += " threads=%d" % rng.choice([1, 2, 2, 4, 8])
    if rng.random() < .7:
        s += " cps=%d" % rng.choice([3, 4, 6, 8, 16, 28, 64])
    if rng.random() < .85:
        s += " sockets=%d" % rng.choice([1, 1, 2, 4])
    if rng.random() < .6:            # several private caches, several shared ones: the two reports differ
        s += " t1=%d t2=%d o3=%d" % (10*rng.choice([64, 128, 512, 1024]), 10*rng.choice([2, 16, 64, 99]), 10*rng.choice([1, 4, 7, 16]))
    r = rng.random()
    if r < .35:
        s += " model=%d" % rng.choice([1, 3, 4, 17, 33, 49, 69, 85, 142, 165])
    elif r < .6:
        s += " model=%d" % rng.choice([0, 2, 5, 16, 18, 34, 50, 68, 84, 86, 141, 143, 164, 166, 851, 15, 207])
    elif r < .8:
        s += " mname=1 model=%d" % rng.choice([0, 85, 165])
    if rng.random() < .9:
        s += " a1=%d u1=K" % (10*rng.choice([8, 16, 32, 48, 64, 80, 128]))
        if rng.random() < .3:
            s += " l1i=64K"
    if rng.random() < .9:
        a, u = rng.choice([(2560, "K"), (5120, "K"), (12800, "K"), (10, "M"), (12, "M"), (13, "M"), (15, "M"), (20, "M"), (25, "M"), (20480, "K"), (7, "M"), (10240, "K")])
        s += " a2=%d u2=%s" % (a, u)
    if rng.random() < .9:
        a, u = rng.choice([(80, "M"), (360, "M"), (358, "M"), (385, "M"), (2560, "M"), (11520, "M"), (10, "G"), (11, "G"), (15, "G"), (20, "G"), (40, "G"), (5, "G"), (366080, "K"), (307200, "K"), (165, "M"), (10230, "M")])
        s += " a3=%d u3=%s" % (a, u)
    if rng.random() < .35:
        s += " torch=1 tl2=%d tl3=%d" % (rng.choice([1 << 18, 1 << 20, 12345]), rng.choice([1 << 22, 1 << 25, 777777]))
    if rng.random() < .7:
        s += " tm=%d tn=%d" % rng.choice(TILES)
    return s


def c13(c):
    c.assumptions = ["the topology tool is a stand-in on PATH that prints the reported fields in lscpu's format"]
    c.model("MCMachine")
    for n in c.rounds():
        rng = c.rng
        ses = [[machine(rng) for _ in range(10)] for _ in range(24)]
        # every built-in entry, every absent field
        ses.append(["machine cpus=8 threads=2 sockets=1 model=%d a1=480 u1=K a2=13 u2=M a3=330 u3=M" % m for m in (1, 3, 4, 17, 33, 49, 69, 85, 142, 165)])
        ses.append(["machine cpus=6 %s" % " ".join(x for i, x in enumerate(["threads=2", "sockets=1", "a1=480 u1=K", "a2=5120 u2=K", "a3=120 u3=M"]) if i != k) for k in range(6)])
        unit(c, ses, what="machine description")
        with other(c, "arm") as ok:
            if ok:
                unit(c, [[machine(rng) for _ in range(10)] for _ in range(4)], what="machine description")


def checker(rng):
    fn = rng.choice(["gemm", "gemm", "mat", "add"])
    M, N, K, p = rng.randint(1, 40), rng.randint(1, 50), rng.randint(1, 12), rng.randint(1, 5)
    if rng.random() < .12:
        M, N, K = long_dims(rng, 5000, 12)
        if fn == "gemm" and K > 60:              # the errors planted below must survive rounding
            K = rng.randint(13, 60)
        p = rng.randint(1, 12)
    errs = []
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 5])):
        i, j = rng.choice([(0, 0), (M-1, N-1), (0, N-1), (M-1, 0), (rng.randrange(M), rng.randrange(N))])
        if any(e[:2] == (i, j) for e in errs):
            continue
        errs.append((i, j, rng.choice([3, -3, 8, -8, 12, -12, 12, -12, 30, -30, 10000, -10000, 99999, 88888, -88888])))
    if rng.random() < .25:
        errs = [e for e in errs if abs(e[2]) < 10]
    s = "chk fn=%s M=%d N=%d K=%d p=%d sa=%d sb=%d th=%d" % (fn, M, N, K, p, rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 4))
    if rng.random() < .15:                       # very many wrong elements, among them round numbers of them
        n = rng.choice([M*N, rng.randint(1, M*N), 128, 256, 512, 1024, 32768, 65536])
        while M*N < n:
            M, N = 2*M + 1, 2*N + 1
        if rng.random() < .4 and n > 100:
            errs = []
        errs = [e for e in errs if e[0]*N + e[1] >= n and e[0] < M and e[1] < N]
        K = min(K, 12)
        s = "chk fn=%s M=%d N=%d K=%d p=%d sa=%d sb=%d th=%d" % (fn, M, N, K, p, rng.randint(1, 9), rng.randint(1, 9), rng.randint(1, 4))
        s += " many=%d md=%d" % (n, rng.choice([12, -12, 30, 8, 99999, 88888, 10000]))
    if errs:
        s += " err=" + ",".join("%d:%d:%d" % e for e in errs)
    if fn == "mat":
        if rng.random() < .4:
            s += " side=1"
        if not errs and "many" not in s and rng.random() < .3:
            s += " both=%d" % rng.choice([99999, 88888, -88888])
    return s


def c18(c):
    c.assumptions = ["planted errors are at least 0.0002 away from the tolerance of 0.001, so rounding of the recomputed product cannot decide"]
    c.model("MCChecker")
    for n in c.rounds():
        rng = c.rng
        ses = [[checker(rng) for _ in range(40)] for _ in range(50)]
        unit(c, ses, what="result checker")
        far = []                                 # matrices of 2^31 elements and more
        for fn, M, N, K in (("gemm", 2**29 + 5, 1, 4), ("mat", 46344, 46349, 1), ("add", 3, 2**30 - 7, 1)):
            errs = ["", "%d:%d:50" % (M - 1, N - 1), "%d:%d:-20" % (rng.randint(M // 2, M - 1), rng.randint(0, N - 1))]
            if c.quick:
                errs = [] if fn == "add" else rng.sample(errs, 2) if fn == "gemm" else [rng.choice(errs)]
            far += ["farchk fn=%s M=%d N=%d K=%d err=%s seed=%d" % (fn, M, N, K, e, rng.randint(1, 999)) for e in errs]
        if c.quick or not n:
            unit(c, [[x] for x in far], what="checker on 2^31 elements and more", jobs=1, per_session=400)


# --------------------------------------------------------------------------------- C14, C16, C17
def plan(c, sessions, parts, what):
    exe = real(c)
    ev = c.execute(exe, sessions)
    return c.validate("TracePlan", cfg_text("TracePlan.cfg", Judge=judge(*parts)), sessions, ev, what)


def c14(c):
    c.assumptions = ["p*N and (2p+1)^2*M below 2^31 for the reduced ratio of the judged shapes (the dimensions themselves go to 2^31); thread counts to 300"]
    c.model("MCPlan")
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(60):
            L = []
            for i in range(40):
                p = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 36, 48, 60, 64, 97, 128, 210, 256, 300]) if rng.random() < .6 else rng.randint(1, 130)
                r = rng.randint(1, p)
                if rng.random() < .5:            # aim at a given ideal, and at half-way points
                    M = rng.randint(1, 60)
                    q = (2*r + rng.choice([-1, 0, 0, 1]))**2
                    N = max(1, (q*M + rng.choice([-1, 0, 0, 1, 2])) // (4*p))
                    if rng.random() < .5:
                        M, N = 4*p*rng.randint(1, 3), 0
                        N = max(1, q*(M // (4*p)) + rng.choice([-1, 0, 0, 1]))
                else:
                    M, N = (rng.choice([1, 2, 10, 96, 111, 960, 2111, 5000, rng.randint(1, 4000)]) for _ in range(2))
                if (2*p + 1)**2*M >= 2**31 or 4*p*N >= 2**31:
                    continue
                if rng.random() < .15:           # the same ratio, dimensions up to 2^31
                    t = rng.randint(1, (2**31 - 1) // max(M, N))
                    t = rng.choice([t, 2**31 // max(M, N) - 1, min(t, 50000)])
                    M, N = M*t, N*t
                L.append("grid M=%d N=%d K=%d p=%d nc=%d" % (M, N, rng.randint(1, 500), p, rng.choice([1, 4, 8, 16])))
            ses.append(L)
        for p in range(1, 25):
            ses.append(["grid M=%d N=%d p=%d" % (M, N, p) for M in (1, 2, 3, 5, 8, 13, 40) for N in (1, 2, 4, 7, 13, 100)])
        plan(c, ses, ["grid"], "processing grid")
        # the table generated on machines with other core counts, and the answers it leads to
        cores = [8, c.rng.choice([2, 3, 5, 6, 7])] if c.quick else [1, 2, 3, 5, 8, 12, 16, 31, 48, 64]
        if n == 0:
            for k in cores:
                exe = build.build(["real"], ncores=k)["real"]
                s2 = [["gridtable cores=%d" % k] + ["grid M=%d N=%d p=%d" % (rng.randint(1, 50), rng.randint(1, 50), rng.randint(1, k + 6)) for _ in range(60)]]
                ev = c.execute(exe, s2)
                c.validate("TracePlan", cfg_text("TracePlan.cfg", Judge=judge("grid")), s2, ev, "factor table for %d cores" % k)
            c.extra["factor_tables_for_cores"] = cores


def cut_shape(rng, pb):
    """Shapes around the traffic cuts of derive_schedule."""
    D = rng.choice([pb, 3*pb, 7*pb, rng.randint(1, 3000)])
    cut = 2*D*pb // (pb + D)
    K = max(1, cut + rng.choice([-2, -1, 0, 0, 0, 1, 2]))
    E = max(1, D + rng.choice([-1, 0, 0, 1, -D // 2, D // 2]))
    return (D, E, K) if rng.random() < .5 else (E, D, K)


def c16(c):
    c.assumptions = ["within 1e-6 of a cut (and on it, unless the cut is a power-of-two computation) either order is accepted: the library decides in floating point"]
    c.model("MCPlan")
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(90):
            cx = rctx(rng, mach=rng.choice(MACH))
            L = [cx.line()]
            for i in range(40):
                p = rng.choice([1, 2, 3, 4, 5, 6, 8, 8, 12])
                if rng.random() < .6:
                    b = cases.mc_auto(cx.mach, cx.tile[1], cx.tile[0])
                    if rng.random() < .3:
                        b = cx.tile[0]*rng.randint(1, 4)
                    M, N, K = cut_shape(rng, p*b)
                else:
                    M, N, K = (rng.choice([1, 10, 96, 111, 960, 2111, rng.randint(1, 4000), rng.randint(1, 60000)]) for _ in range(3))
                if K*(p*400 + max(M, N)) >= 2**31:
                    continue
                sch = rng.choice(["NA", "NA", "NA", "KMN", "MKN", "NKM"])
                t = " mcu=%d kcu=%d ncu=%d" % (cx.tile[0]*rng.randint(1, 20), rng.randint(1, 100), cx.tile[1]*rng.randint(1, 9)) if rng.random() < .2 else ""
                L.append("plan c=0 kind=1d M=%d N=%d K=%d p=%d sch=%s%s" % (M, N, K, p, sch, t))
                if rng.random() < .5:
                    k = rng.randint(1, 60)
                    m = rng.choice([2*k, 2*k - 1, 2*k + 1, k, k - 1, k + 1, rng.randint(1, 200)])
                    q = rng.choice([m, m - 1, m + 1, k, 2*k, 2*k - 1, rng.randint(1, 200)])
                    if rng.random() < .5:
                        m, q = q, m
                    L.append("setsched M=%d N=%d K=%d sch=%s" % (max(1, m), max(1, q), k, rng.choice(["NA", "NA", "KMN", "MKN", "NKM"])))
            ses.append(L)
        plan(c, ses, ["order"], "loop order")


def c17(c):
    c.assumptions = ["caches hold at least one register tile"]
    c.model("MCPlan")
    for n in c.rounds():
        rng, ses = c.rng, []
        for s in range(90):
            mach = dict(rng.choice(MACH))
            if rng.random() < .5:
                mach.update(L1=rng.choice([3000, 8192, 32768, 49152, 65536]), L2=rng.choice([5000, 9001, 32768, 262144, 524288, 1310720, 2097152, 16777216]),
                            L3=rng.choice([6000, 100000, 524288, 4194304, 8388608, 37486592, 67108864]), nc=rng.choice([1, 2, 3, 4, 8, 16, 28, 64]))
            cx = rctx(rng, mach=mach)
            L = [cx.line()]
            b = cases.mc_auto(mach, cx.tile[1], cx.tile[0])
            for i in range(30):
                p = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 16])
                kind = rng.choice(["1d", "1d", "1d", "2d", "small"])
                sch = rng.choice(SCHEDS) if kind == "1d" else "KMN"
                user = kind != "small" and rng.random() < .35
                if rng.random() < .5:
                    M, N, K, mcu, kcu, ncu = shape(rng, "gemm", cx, p, user, 3000, sch)
                else:
                    M = max(1, p*b*rng.randint(0, 2) + rng.choice([0, 1, -1, cx.tile[0], p*cx.tile[0], p*cx.tile[0] - 1, rng.randint(1, p*b)]))
                    N, K = (max(1, rng.choice([b, cx.tile[1], 1, 97, 2*b + 3, rng.randint(1, 2000), rng.randint(1, 60000)])) for _ in range(2))
                    mcu, kcu, ncu = (cx.tile[0]*rng.randint(1, 30), rng.randint(1, 300), cx.tile[1]*rng.randint(1, 20)) if user else (0, 0, 0)
                t = " mcu=%d kcu=%d ncu=%d" % (mcu, kcu, ncu) if user else ""
                L.append("plan c=0 kind=%s M=%d N=%d K=%d p=%d sch=%s%s" % (kind, M, N, K, p, sch, t))
            ses.append(L)
        for s in range(12):                      # the same question asked again with one thing changed
            L = []
            for fam, cx, d in walk(rng, 30, 700):
                if not L:
                    L = [f.line() for f in fam]
                kind = {"2d": "2d", "2dsmall": "small"}.get(d["fn"], "1d")
                u = d["u"] if kind != "small" and d["u"][0] else None
                t = " mcu=%d kcu=%d ncu=%d" % (u[0]*cx.tile[0], u[1], u[2]*cx.tile[1]) if u else ""
                L.append("plan c=%d kind=%s M=%d N=%d K=%d p=%d sch=%s%s" % (cx.id, kind, d["M"], d["N"], d["K"], d["p"], d["sch"] if kind == "1d" else "KMN", t))
            ses.append(L)
        plan(c, ses, ["budget", "cover"], "block plan")


# --------------------------------------------------------------------------------- C09, C15
def kernels(M, N, K, tile, tiles, mach):
    """Rough number of kernel calls of a product (to keep recordings small)."""
    k = tiles[1] if any(tiles) else max(tile[0], cases.mc_auto(mach, tile[1], tile[0]))
    return -(-M//tile[0]) * -(-N//tile[1]) * -(-K//max(1, k))


def sched_sessions(rng, n, per, fns=FNS, cap=110, most=350, pack=.2):
    ses = []
    for s in range(n):
        cx = rctx(rng, mach=rng.choice(MACH[1:]))
        L = [cx.line()]
        while len(L) <= per:
            d = mult(rng, cx, fn=rng.choice(fns), cap=cap, hi=3000)
            if kernels(d["M"], d["N"], d["K"], cx.tile, d["tiles"], cx.mach) > most:
                continue
            for k in ("guard", "cold", "sa", "sb", "sc"):
                d.pop(k)
            if d["fn"] == "gemm" and rng.random() < pack:
                d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
            if rng.random() < .15:
                d["be2"] = 2
            L.append(line(d))
        ses.append(L)
    return ses


def wide_grids(rng, n):
    """Grids with many columns (or rows) and a partly filled last block."""
    ses = []
    for s in range(n):
        cx = rctx(rng, mach=rng.choice([MACH[1], MACH[2], MACH[4], MACH[5]]))
        L = [cx.line()]
        while len(L) < 10:
            M, N, K, p = rng.randint(1, 40), rng.randint(60, 900), rng.randint(1, 12), rng.randint(2, 14)
            if rng.random() < .35:
                M, N = N // 2, M + 16
            if kernels(M, N, K, cx.tile, (0, 0, 0), cx.mach) <= 400:
                L.append(line(dict(fn=rng.choice(["2d", "2d", "2dsmall", "online", "gemm"]), M=M, N=N, K=K, p=p, sch="KMN", tiles=(0, 0, 0))))
        ses.append(L)
    return ses


def small_grids(rng, fns, limit):
    """Every small block count in each dimension, with and without remainders, for each entry point."""
    ses = []
    for fn in fns:
        for sch in (SCHEDS[:3] if fn == "gemm" else ["NA"]):
            for p in (1, 2, 3):
                cx = rctx(rng, mach=MACH[3])
                mr, nr = cx.tile
                L = [cx.line()]
                for mb in (1, 2, 3):
                    for nb in (1, 2, 3):
                        for kb in (1, 2, 3):
                            pm, pk = (1 if sch == "MKN" else p), (1 if sch in ("NA", "KMN") else p)
                            M = mb*mr*pm - rng.choice([0, 0, 1, mr*pm//2]); N = nb*nr - rng.choice([0, 0, 1, nr//2]); K = kb*2*pk - rng.choice([0, 0, 1])
                            L.append(line(dict(fn=fn, M=max(1, M), N=max(1, N), K=max(1, K), p=p, sch=sch, tiles=(0, 0, 0) if fn in ("2dsmall", "test") else (mr, 2, nr))))
                rng.shuffle(L[1:])
                ses.append(L[:1 + limit])
    return ses


def edge_dim(rng, nb, blk, unit):
    """nb blocks of blk, the last one full, short by less than a register tile, nearly empty, or between."""
    return max(1, nb*blk - rng.choice([0, rng.randint(1, unit - 1) if unit > 1 else 0, rng.randint(1, unit - 1) if unit > 1 else 0, blk - 1, blk - unit, rng.randint(0, blk - 1)]))


def block_edges(rng, sch, cx, p, counts=(1, 2)):
    """Dimensions and tiles for every combination of block counts, the remainders drawn by chance."""
    mr, nr = cx.tile
    for mb in counts:
        for nb in counts:
            for kb in counts:
                a, b, d = mr*rng.randint(1, 3), rng.choice([1, 2, 3, 5, 8]), nr*rng.randint(1, 2)
                M = edge_dim(rng, mb, a*(1 if sch == "MKN" else p), mr)
                K = edge_dim(rng, kb, b*(1 if sch == "KMN" else p), 1)
                yield M, edge_dim(rng, nb, d, nr), K, (a, b, d)


def sched(c, sessions, parts, what):
    exe = build.build(["prov"])["prov"]
    ev = c.execute(exe, sessions)
    return c.validate("TraceSched", cfg_text("TraceSched.cfg", Judge=judge(*parts)), sessions, ev, what, exe="prov")


def c09(c):
    c.assumptions = ASSUME[:2] + ["stand-in micro-kernels: operands are tags naming their place, results are the number of the update"]
    c.model("MCSched")
    c.model("MCSched", cfg="MCSchedLive.cfg")
    for _ in c.rounds():
        ses = sched_sessions(c.rng, 90, 10) + small_grids(c.rng, FNS, 27) + wide_grids(c.rng, 20) + crowds(c.rng, 8)
        sched(c, ses, ["cover", "even"], "schedule")


def c15(c):
    c.assumptions = ASSUME[:2] + ["stand-in micro-kernels: operands are tags naming their place and the parallel step in which they were current"]
    c.model("MCSched")
    c.model("MCSched", cfg="MCSchedLive.cfg")
    for _ in c.rounds():
        ses = sched_sessions(c.rng, 90, 10, fns=FNS + ["online", "2d", "2dsmall"]) + small_grids(c.rng, FNS, 27)
        sched(c, ses, ["walk", "reuse"], "block visit")


# --------------------------------------------------------------------------------- C05, C06
def mem_sessions(rng, n, per, cap=40, most=120):
    ses = []
    for s in range(n):
        cx = rctx(rng, mach=rng.choice(MACH[1:]))
        L = [cx.line()]
        while len(L) <= per:
            r = rng.random()
            d = mult(rng, cx, cap=cap, hi=900)
            if kernels(d["M"], d["N"], d["K"], cx.tile, d["tiles"], cx.mach) > most:
                continue
            for k in ("guard", "cold", "sa", "sb", "sc"):
                d.pop(k)
            if r < .72:
                if d["fn"] == "gemm" and rng.random() < .2:
                    d["pa"], d["pb"] = rng.choice([(1, 0), (0, 1), (1, 1)])
                if rng.random() < .25:
                    d["al2"], d["be2"] = rng.choice([(2, 2), (4, 0), (2, 1), (1, 2), (4, 4)])
                L.append(line(d, -1 if rng.random() < .08 and not d.get("pa") and not d.get("pb") and not any(d["tiles"]) else 0))
            elif r < .92:
                d = dict(d, fn="gemm")
                L.append(line(d).replace("call fn=gemm", "pack op=%s" % rng.choice("ABCU")))
            else:
                L.append("xpose K=%d N=%d Kt=%d Nt=%d p=%d" % (rng.randint(1, 40), rng.randint(1, 40), rng.choice([1, 3, 8, 16, 24]), rng.choice([1, 5, 8, 16, 24]), d["p"]))
        ses.append(L)
    return ses


def mem_edges(rng):
    ses = []
    for sch in SCHEDS[:3]:
        for op in "ABCU":
            for p in (1, rng.randint(2, 4)):
                cx = rctx(rng, mach=rng.choice(MACH[1:]))
                ses.append([cx.line()] + [line(dict(fn="gemm", M=M, N=N, K=K, p=p, sch=sch, tiles=t)).replace("call fn=gemm", "pack op=" + op) for M, N, K, t in block_edges(rng, sch, cx, p)])
        for be in ((2, 2), (2, 0), (4, 1)):
            p = rng.randint(1, 4)
            cx = rctx(rng, mach=rng.choice(MACH[1:]))
            ses.append([cx.line()] + [line(dict(fn="gemm", M=M, N=N, K=K, p=p, sch=sch, tiles=t, al2=be[0], be2=be[1])) for M, N, K, t in block_edges(rng, sch, cx, p)])
    for fn in ("online", "2d", "2dsmall", "test"):
        p = rng.randint(1, 4)
        cx = rctx(rng, mach=rng.choice(MACH[1:]))
        ses.append([cx.line()] + [line(dict(fn=fn, M=M, N=N, K=K, p=p, sch="NA", tiles=t if fn in ("online", "2d") else (0, 0, 0))) for M, N, K, t in block_edges(rng, "KMN", cx, p)])
    return ses


def mem(c, sessions, parts, what):
    exe = build.build(["mem"])["mem"]
    ev = c.execute(exe, sessions)
    return c.validate("TraceMem", cfg_text("TraceMem.cfg", Judge=judge(*parts)), sessions, ev, what, exe="mem")


MEMASSUME = ASSUME[:2] + ["loads and stores are those of the library's sources compiled with instrumentation; a micro-kernel's accesses are two strips and one tile (C11 decides that)"]


def c05(c):
    c.assumptions = MEMASSUME
    c.model("MCMem")
    for _ in c.rounds():
        mem(c, mem_sessions(c.rng, 60, 9) + mem_edges(c.rng) + crowds(c.rng, 8), ["bounds"], "memory access")


def c06(c):
    c.assumptions = MEMASSUME + ["work is dealt to threads statically, so the recorded access sets of a step are those of every interleaving of it"]
    c.model("MCMem")
    for _ in c.rounds():
        rng = c.rng
        mem(c, mem_sessions(rng, 50, 9) + mem_edges(rng) + crowds(rng, 8), ["race"], "memory access")
        ses = []
        for s in range(16):                       # repeated calls on inputs whose sums round
            cx = rctx(rng)
            L = [cx.line()]
            for i in range(6):
                d = mult(rng, cx, cap=150, pmax=8)
                d["p"] = rng.randint(2, 8)
                L.append(line(d).replace("call ", "det rep=5 "))
            ses.append(L)
        api(c, ses, [])


TABLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13,
         "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18}
