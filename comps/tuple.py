from .base import *
OPS = "new release cleared set".split()
def history(rng, n, fault=False):
    sc = ["reset"]; pool = pick(rng, (5, [1, 2, 4, 8]), (3, [1, 2, 4, 8, 16, 24, 40]), (1, [1, 3, 5, 6, 7, 9, 2]), (1, [0, 1, 4, 8]), (1, [1, 8, 300]))
    while len(sc) < n:
        if fault and rng.random() < .5: sc.append(rng.choice(["fail 1", "fail 2", "fail 3", "fail 1 5"]))
        k = rng.choice([1, 2, 3, 4, 5, 8, 13])
        sz = [rng.choice(pool) for _ in range(k)]
        sc.append("new %d %d %s" % (rng.randrange(2), rng.randrange(2), " ".join(map(str, sz))))
        for _ in range(rng.randrange(8)):
            sc.append("set %s %d %d" % (rng.choice([rng.randrange(k), rng.randrange(k), k - 1, k, -1] if rng.random() < .3 else [rng.randrange(k)]), rng.randrange(256), rng.choice([0, 1, 7])))
        sc.append(rng.choice(["release", "cleared"]))
    return sc
def many(rng):
    "many fields"
    sc = ["reset"]
    for pool in ([1, 2, 4, 8], [1, 8], [8, 1, 1], [1, 2], [4, 1], [8, 16, 1], [1, 2, 4, 8, 24, 40]):
        k = rng.choice([15, 16, 17, 31, 32, 33, 40, 55]); sz = [rng.choice(pool) for _ in range(k)]
        sc.append("new %d %d %s" % (rng.randrange(2), rng.random() < .3, " ".join(map(str, sz))))
        for i in [0, k - 1, k // 2, rng.randrange(k), k, 16 % k, 15 % k]: sc.append("set %d %d %d" % (i, rng.randrange(256), rng.choice([0, 1, 7])))
        sc.append("release")
    return sc
def wide(rng):
    "wide fields"
    sc = ["reset"]
    for _ in range(8):
        k = rng.choice([1, 2, 3, 5]); sz = [rng.choice([1, 2, 4, 8, 16, 24, 56, 64, 72, 120, 128, 136, 248, 256, 264, 512, 1024]) for _ in range(k)]
        sc.append("new %d %d %s" % (rng.randrange(2), rng.random() < .3, " ".join(map(str, sz))))
        for i in range(k): sc.append("set %d %d %d" % (i, rng.randrange(256), rng.choice([1, 7])))
        sc.append("release")
    return sc
def big():
    return [["reset", "new 0 %d %s" % (p, s), "set 1 9 1", "set 0 3 0", "set 2 5 0", "release"] for p in (0, 1)
            for s in ("40000 4 40000", "8 70000 8", "65536 1 1", "65535 1 8", "1 4 2", "8 8 100000")] + [["reset", "new %d %d %s" % (h, p, s), "none", "release"] for h in (0, 1) for p in (0, 1) for s in ("", "0", "0 0", "0 4", "4 0", "1 0 8", "8 0 0")]
def huge(rng):
    sc = ["reset"]
    for _ in range(40):
        k = rng.choice([1, 2, 2, 3, 8]); big = rng.choice(["h7fffffff", "h80000000", "h80000001", "hffffffff", "h100000000", "h100000008", "h7fffffffffffffff", "h8000000000000000", "h8000000000000008", -1, -8, -7, "h2000000000000000", "h4000000000000000", "hfffffffffffffff1"])
        sz = [rng.choice([1, 2, 4, 8, 16]) for _ in range(k)] if rng.random() < .6 else [big] * k
        if rng.random() < .3 and isinstance(big, str) and len(big) == 17: sz[rng.randrange(k)] = "h%x" % ((1 << 64) - int(big[1:], 16) + rng.choice([0, 4, 8, 16]) & (1 << 64) - 1)
        sz[rng.randrange(k)] = big
        tot = [(1 << 64) + v if isinstance(v, int) and v < 0 else int(v[1:], 16) if isinstance(v, str) else v for v in sz]
        if (1 << 20) < sum(tot) < (1 << 34) and sum(tot) - max(tot) > 1000 or max(tot) == 0x7fffffff and k > 1: continue
        sc.append("huge %d %d %s" % (rng.randrange(2), rng.randrange(2), " ".join(map(str, sz))))
    return sc + ["new 0 0 1 4", "set 1 7", "release"]
def generate(rng, tier): return [history(rng, rng.choice([20, 60])) for _ in range(120 if tier == "quick" else 2500)] + [f(rng) for f in (many, wide, huge) for _ in range(6 if tier == "quick" else 60)]
def generate_fault(rng, tier): return [history(rng, 40, True) for _ in range(60 if tier == "quick" else 600)]
def tuple_(**kw):
    d = dict(name="tuple", driver="drv_tuple.c", sources=["tuple/tuple.c", "array/array.c"], trace="TupleTrace", mc=[("MCTuple", "MCTuple")],
             mc_thorough=[("MCTuple", "MCTupleThorough")], generate=generate, fixed=big, ops=OPS, walk_reset=["reset"],
             trace_cfg="INVARIANT LayoutOK FieldSizes\n", walk_limit=dict(quick=5000, thorough=60000))
    d.update(kw); return Comp(**d)
