from .base import *
N = 12
def slot(rng): return rng.randrange(1, N + 1)
def region_hist(rng, n):
    sc = ["reset"]; cap = 0
    while len(sc) < n:
        if cap == 0:
            cap = pick(rng, (5, rng.choice([8, 16, 40, 63, 64, 100, 256])), (3, rng.randrange(1, 600)), (1, 0), (.5, -1), (.5, "h4000000000000000"))
            sc.append("make %d %s" % (rng.randrange(2), cap)); cap = cap if isinstance(cap, int) and cap > 0 else 0; left = cap
        else:
            x = rng.random()
            if x < .6:
                k = pick(rng, (5, rng.choice([1, 7, 8, 9, 16, 24, 40])), (3, rng.randrange(1, 2 + cap // 3)), (2, max(0, left)), (1, left - 7), (1, left + 1), (1, cap), (1, 0), (.6, -1), (.6, -8), (.6, -7),
                         (.4, "h7fffffffffffffff"), (.4, "hfffffffffffffff0"), (.4, "h%x" % (2**64 - max(1, cap - left)))) 
                sc.append("alloc %d %s" % (slot(rng), k))
                if isinstance(k, int) and k > 0 and (k + 7) // 8 * 8 <= left: left -= (k + 7) // 8 * 8
            elif x < .93: sc.append("write %d %d" % (slot(rng), rng.randrange(256)))
            else: sc.append("clear"); cap = 0
    return sc + ["clear"]
def bistack_hist(rng, n):
    sc = ["reset"]; cap = 0; live = {"front": 0, "back": 0}
    while len(sc) < n:
        if cap == 0:
            cap = pick(rng, (5, rng.choice([8, 16, 40, 63, 64, 100, 256])), (3, rng.randrange(1, 600)), (1, 0), (.5, -1), (.5, "h4000000000000000"))
            sc.append("make %d %s" % (rng.randrange(2), cap)); cap = cap if isinstance(cap, int) and cap > 0 else 0; live = {"front": 0, "back": 0}
        else:
            x = rng.random(); left = cap // 8 * 8 - live["front"] - live["back"]; d = rng.choice(["front", "back"])
            if x < .55:
                k = pick(rng, (5, rng.choice([1, 7, 8, 9, 16, 24, 40])), (3, rng.randrange(1, 2 + cap // 3)), (2, max(0, left)), (1, left - 7), (1, left + 1), (1, cap), (.5, 0), (.6, -1), (.6, -8), (.6, -7),
                         (.4, "h7fffffffffffffff"), (.4, "h%x" % (2**64 - max(1, cap - left))))
                sc.append("alloc %s %d %s" % (d, slot(rng), k))
                if isinstance(k, int) and k > 0 and (k + 7) // 8 * 8 <= left: live[d] += (k + 7) // 8 * 8
            elif x < .8: sc.append("write %d %d" % (slot(rng), rng.randrange(256)))
            elif x < .92:
                d = rng.choice(["front", "back", "all"]); sc.append("giveup " + d)
                for y in live:
                    if d in (y, "all"): live[y] = 0
            elif x < .96: cap = rng.choice([8, 24, 65, 128, 300]); sc.append("resize %d" % cap); live = {"front": 0, "back": 0}
            elif x < .97: sc.append("resize -1")
            else: sc.append("clear"); cap = 0
    return sc + ["clear"]
def objpool_hist(rng, n):
    sc = ["reset"]; up = False
    while len(sc) < n:
        if not up:
            c = rng.choice([1, 2, 3, 5, 8, 12, 11]); m = pick(rng, (4, rng.choice([8, 16, 24, 64])), (3, rng.randrange(1, 40)), (2, rng.choice([65, 72, 80, 96, 100, 120, 128, 136, 250, 256, 264, 300, 512, 900])))
            if rng.random() < .15: c, m = rng.choice([(0, 8), (8, 0), (3, -1), (3, -5), (-1, 8), ("h2000000000000000", 8), ("h2000000000000001", 8)])
            else: up = True
            b = rng.randrange(2); up = up and not (b and (m < 8 or m % 8))
            sc.append("make %d %s %s" % (b, c, m))
        else:
            sc.append(pick(rng, (5, "alloc %d" % slot(rng)), (3, "write %d %d" % (slot(rng), rng.randrange(256))), (3, "free %d" % slot(rng)), (1, "cleanup %d" % slot(rng)), (.7, "foreign %d" % rng.randrange(7)), (.1, "clear")))
            if sc[-1] == "clear": up = False
    return sc + ["clear"]
def mempool_hist(rng, n):
    sc = ["reset"]; up = False
    sizes = rng.choice([[8, 8, 16], [1, 8, 24, 40], [8, 40, 72, 100], [1, 8, 16, 24, 32, 40, 48, 64, 100, 200], [24], [60, 200, 300]])
    while len(sc) < n:
        if not up:
            cap = pick(rng, (4, rng.choice([128, 224, 500, 1000, 2000])), (2, rng.randrange(32, 1500)), (.4, rng.choice([0, 1, 24, 25, 31, -1])))
            sc.append("make %d %d" % (rng.randrange(2), cap)); up = cap > 32
        else:
            k = pick(rng, (12, rng.choice(sizes)), (2, rng.randrange(1, 120)), (.5, rng.choice([0, cap, cap - 24, cap + 1, -1, -24, "hffffffffffffffe8", "h7fffffffffffffff"])))
            sc.append(pick(rng, (6, "alloc %d %s" % (slot(rng), k)), (2, "write %d %d" % (slot(rng), rng.randrange(256))), (3.5, "free %d" % slot(rng)), (1, "cleanup %d" % slot(rng)),
                           (1.5, "realloc %d %s" % (slot(rng), k)), (.2, "foreign %d" % rng.randrange(6)), (.03, "clear")))
            if sc[-1] == "clear": up = False
    return sc + ["clear"]
def mempool_pairs(rng, n):
    """a pool filled with blocks; neighbours given back in any order; requests of combined sizes"""
    sc = ["reset"]; r8 = lambda x: (x + 7) // 8 * 8
    while len(sc) < n:
        a = rng.choice([8, 8, 16, 24, 40, 64, 100, 200]); b = rng.choice([a, a, 8, 48]); k = rng.randrange(3, 11)
        szs = [rng.choice([a, a, a, b]) for _ in range(k)]; cap = sum(24 + r8(x) for x in szs) + rng.choice([0, 0, 8, 24, 30])
        sc.append("make %d %d" % (rng.randrange(2), cap))
        for i, x in enumerate(szs): sc += ["alloc %d %d" % (i + 1, x), "write %d %d" % (i + 1, 17 * i % 256)]
        live = dict(enumerate(szs)); free = 12
        for _ in range(rng.randrange(1, 4)):
            if not live: break
            if rng.random() < .3:                     # the most recent ones, in reverse order
                j = rng.randrange(1, max(2, len(live))); ids = sorted(live)[-j:][::-1]
            else:
                ids = [i for i in range(k - 1) if i in live and i + 1 in live and live[i] == live[i + 1]]
                if not ids: break
                i = rng.choice(ids); ids = [i, i + 1]; rng.shuffle(ids)
            tot = sum(24 + r8(live[i]) for i in ids)
            for i in ids: sc.append("%s %d" % (rng.choice(["free", "free", "cleanup"]), i + 1)); del live[i]
            sc.append("alloc %d %d" % (free, tot - 24)); sc.append("write %d 99" % free); 
            if rng.random() < .7: sc.append("free %d" % free)
            else: free = free - 1 if free > 11 else free
            if rng.random() < .3: sc.append("alloc %d %d" % (ids[0] + 1, szs[ids[0]]))
        sc.append("clear")
    return sc
def deads(rng, sc):
    """requests to an allocator that has no store (any more)"""
    out = []
    for x in sc:
        if x.startswith("make") and rng.random() < .3: out.append("dead")
        out.append(x)
        if x == "clear" or (x.startswith("make") and rng.random() < .3): out += ["dead"] * rng.randrange(3)
    return out
def faults(rng, sc, p):
    """requests for memory that are refused"""
    out = []
    for x in sc:
        if x.split()[0] in ("make", "resize") and rng.random() < p: out += ["fail 1", x] + ["dead"] * (x[0] == "m" and rng.random() < .3)
        out.append(x)
    return out
def mk(name, mod, h, ops, k, extra=""):
    def comp(**kw):
        d = dict(name=name, driver="drv_%s.c" % name, sources=["allocators/%s/%s.c" % (name, name)] + (["allocators/region/region.c"] if name == "mempool" else []),
                 trace=mod + "Trace", mc=[("MC" + mod, "MC" + mod)], ops=ops.split(), walk_reset=["reset"], trace_cfg="CONSTANT K = 12\n" + extra + "INVARIANT Safe\n",
                 generate=lambda rng, tier: [faults(rng, deads(rng, h(rng, rng.choice([30, 100, 200]))), .1) for _ in range(k[0] if tier == "quick" else k[1])], walk_limit=dict(quick=15000, thorough=150000), need=['"oom":true'])
        d.update(kw); return Comp(**d)
    return comp
region = mk("region", "Region", region_hist, "make alloc write clear", (200, 4000))
bistack = mk("bistack", "BiStack", bistack_hist, "make alloc write giveup resize clear", (200, 4000))
objpool = mk("objpool", "ObjPool", objpool_hist, "make alloc write free cleanup foreign clear", (200, 4000))
mempool = mk("mempool", "MemPool", lambda rng, n: mempool_pairs(rng, n) if rng.random() < .3 else mempool_hist(rng, n), "make alloc write free cleanup realloc foreign clear", (400, 6000), "CONSTANT H = 24\nCONSTANT Slack = 32\n")
