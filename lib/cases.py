"""Generation of API sessions: shapes, threads, tiles, schedules and machine descriptions on the
edges of the block partition.  Every choice comes from the seeded generator handed in."""

TILES = [(6, 16), (6, 32), (8, 16), (8, 32)]
ARCH_TILES = {"x86": list(TILES), "arm": [(8, 12), (8, 24), (10, 12), (10, 24)], "wide": [(m, n) for m in (6, 8, 10, 12) for n in (16, 32, 48)]}
STRIPS = {"x86": (6, 16), "arm": (8, 12), "wide": (6, 16)}      # tiles of the hand-written packing kernels
FNS = ["gemm", "online", "2d", "2dsmall", "test"]
SCHEDS = ["KMN", "MKN", "NKM", "NA"]
# machine descriptions: small caches make small blocks, so small matrices have many of them
MACH = [
    dict(L1=32768, L2=1048576, L3=8388608, nc=4),
    dict(L1=4096, L2=8000, L3=200000, nc=4),
    dict(L1=6000, L2=20000, L3=400000, nc=8),
    dict(L1=3000, L2=5000, L3=6000, nc=2),
    dict(L1=8192, L2=12000, L3=3000000, nc=8),
    dict(L1=16384, L2=65536, L3=100000, nc=1),
    dict(L1=5000, L2=5000, L3=60000, nc=16),
]


def tiles_of(kern):
    return sorted(set(kern.values()))


def edge(rng, unit, blk, cap):
    """A dimension on or next to an edge: of the register tile, of a block, of several blocks."""
    r = rng.random()
    if r < 0.12:
        v = rng.choice([1, 1, 2, 3])
    elif r < 0.35:
        v = unit * rng.randint(1, 4) + rng.choice([-1, 0, 0, 1])
    elif r < 0.8:
        v = blk * rng.randint(1, 3) + rng.choice([0, 0, 1, -1, unit, -unit, unit + 1, 2 * unit - 1, blk // 2, 5])
    else:
        v = rng.randint(1, cap)
    return max(1, min(cap, v))


def mc_auto(mach, nr, mr):
    """Rough size of an automatic block (only used to aim dimensions at block edges)."""
    import math
    x = int((-2 * nr + math.sqrt(4 * nr * nr + 4 * mach["L2"] / 8)) / 2)
    return max(mr, x - x % mr)


def ctx_line(cid, mach, tile):
    return "ctx c=%d L1=%d L2=%d L3=%d nc=%d mr=%d nr=%d" % (cid, mach["L1"], mach["L2"], mach["L3"], mach["nc"], tile[0], tile[1])


class Ctx:
    def __init__(self, cid, mach, tile):
        self.id, self.mach, self.tile = cid, mach, tile

    def line(self):
        return ctx_line(self.id, self.mach, self.tile)


def shape(rng, fn, cx, p, user, cap=150, sch=None):
    """(M, N, K, mcu, kcu, ncu)"""
    mr, nr = cx.tile
    if user:
        mcu = mr * rng.randint(1, 3)
        kcu = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16])
        ncu = nr * rng.randint(1, 3)
        bm, bk, bn = mcu, kcu, ncu
    else:
        mcu = kcu = ncu = 0
        b = mc_auto(cx.mach, nr, mr)
        bm = bk = b
        bn = nr * max(1, rng.randint(1, 4))
    par_m = p if sch not in ("MKN",) and rng.random() < 0.6 else 1
    M = edge(rng, mr, bm * par_m, cap)
    N = edge(rng, nr, bn, cap)
    K = edge(rng, 4, bk * (p if sch in ("MKN", "NKM") and rng.random() < 0.6 else 1), cap)
    return M, N, K, mcu, kcu, ncu


def call(fn, cid, M, N, K, p, sch="NA", tiles=(0, 0, 0), sa=1, sb=2, sc=3, cold="int", al2=2, be2=0, pa=0, pb=0, cb=0, guard="e", pp=0):
    s = "call fn=%s c=%d M=%d N=%d K=%d p=%d sch=%s sa=%d sb=%d sc=%d cold=%s guard=%s" % (fn, cid, M, N, K, p, sch, sa, sb, sc, cold, guard)
    if any(tiles):
        s += " mcu=%d kcu=%d ncu=%d" % tuple(tiles)
    if al2 != 2 or be2 != 0:
        s += " al2=%s be2=%s" % (al2, be2)
    if pa:
        s += " pa=1"
    if pb:
        s += " pb=1"
    if pp:
        s += " pp=%d" % pp
    if cb:
        s += " cb=%d" % cb
    return s
