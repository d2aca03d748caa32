from .base import *
OPS = "new release clear rehash insert key_set get find_val idx_set key_rm idx_rm".split()
def history(rng, n, fault=False, zero=True):
    seed = rng.randrange(1 << 31) if rng.random() < .7 else rng.choice([0, 1, 7, 2**31 - 1])
    size = rng.choice([1, 2, 4, 4, 8, 16]) if rng.random() < .8 else rng.choice([3, 5, 6, 7, 12])
    sc = ["reset %d" % seed, "new %d %d" % (rng.randrange(2), size)]
    nk = rng.choice([3, 6, 12, 40])
    keys = []
    style = rng.randrange(6); stem = bytes(rng.randrange(256) for _ in range(rng.choice([7, 8, 15, 16, 17, 31, 33, 64, 255, 300])))
    while len(keys) < nk:
        if style == 0: k = bytes([len(keys) + 1])
        elif style == 1: k = b"key%d" % len(keys)
        elif style == 3: k = stem + bytes([rng.choice([0, 1, 127, 128, 255, len(keys) & 255])]) # long keys that differ at the end only
        elif style == 4: k = bytes([rng.choice([0, 1, 127, 128, 255, len(keys) & 255])]) + stem # ... or at the start only
        elif style == 5: k = stem[:rng.randrange(1, len(stem) + 1)] + bytes(rng.randrange(256) for _ in range(rng.randrange(3))) # prefixes of each other
        else: k = bytes(rng.randrange(3) for _ in range(rng.choice([1, 1, 2, 3, 8, 9])))
        if k not in keys: keys.append(k)
        elif len(keys) > 20 or rng.random() < .02: break
    vals = [b"a", b"ab", b"b", b"abc", bytes(8), bytes(4)] + [bytes(rng.randrange(4) for _ in range(rng.choice([1, 2, 4, 8, 40, 40, 255, 256, 300]))) for _ in range(6)]
    if rng.random() < .3:                # values that differ late, or extend each other
        stem = bytes(rng.randrange(256) for _ in range(rng.choice([8, 16, 32, 33, 64, 255]))); vals[:6] = [stem + b"a", stem + b"b", stem, stem + b"ab", stem[:-1] + b"\0", b"\1" + stem]
    if zero and rng.random() < .2: vals.append(b"")
    if zero and rng.random() < .15: keys.append(b"")
    K = lambda: hexs(rng.choice(keys)); V = lambda: hexs(rng.choice(vals))
    approx = 0
    grow = rng.choice([1, 3])
    while len(sc) < n:
        op = pick(rng, (6 * grow, "insert"), (4, "key_set"), (5, "get"), (2, "find_val"), (2, "idx_set"), (4, "key_rm"), (3, "idx_rm"), (1, "rehash"), (.1, "clear"), (.05, "release"), (.3, "new"))
        if fault and rng.random() < .35: sc.append(rng.choice(["fail 1", "fail 2", "fail 3", "fail 5", "fail 7", "fail 1 20"]))
        if op in ("insert", "key_set"): sc.append("%s %s %s" % (op, K(), V())); approx = min(nk, approx + 1)
        elif op in ("get", "key_rm"): sc.append("%s %s" % (op, K())); approx -= op == "key_rm" and approx > 0
        elif op == "find_val": sc.append("find_val " + V())
        elif op == "idx_set": sc.append("idx_set %s %s" % (rng.choice([rng.randrange(approx + 1), approx, -1]), V()))
        elif op == "idx_rm": sc.append("idx_rm %s" % rng.choice([rng.randrange(approx + 1), 0, approx, -1])); approx = max(0, approx - 1)
        elif op == "rehash": sc.append("rehash %s" % pick(rng, (3, rng.choice([1, 2, 4, 8, 16, 32, 64])), (2, approx), (1, rng.randrange(20)), (.3, 0), (.3, -1), (.3, "h2000000000000000")))
        elif op == "new": sc.append("new %d %d" % (rng.randrange(2), rng.choice([0, 1, 2, 4])))
        else:
            sc.append(op); approx = 0
    return sc + ["release"]
def big(rng, n):
    "many entries: growth through several sizes, removals at both ends and in the middle, lookups of all keys"
    sc = ["reset %d" % rng.randrange(1 << 31), "new 0 %d" % rng.choice([1, 2, 8])]; k = lambda i: hexs(b"%d" % (i * 7919)); have = []; how = rng.choice([["insert"], ["key_set"], ["insert", "key_set"]])
    for i in range(n):
        sc.append("%s %s %s" % (rng.choice(how), k(i), hexs(bytes([i & 255, i >> 8])))); have.append(i)
        if rng.random() < .15 and have: j = rng.choice([0, len(have) - 1, rng.randrange(len(have))]); sc.append("key_rm " + k(have.pop(j)) if rng.random() < .5 else "idx_rm %d" % j) if rng.random() < .5 else sc.append("get " + k(have[j]))
    for i in rng.sample(range(n), n // 3): sc.append("get " + k(i))
    return sc + ["clear", "release"]
def huge(rng):
    "keys and values of thousands of bytes"
    n = lambda: rng.choice([1000, 1023, 1024, 4095, 4096, 4097, 5000, 8192])
    b = bytes(rng.randrange(256) for _ in range(8200)); t = lambda: hexs((b[:n()] + rng.choice([b"", b"", b"\0", b"\1"])))
    vs = [t() for _ in range(3)]; ks = [t(), hexs(b"k"), t()]; sc = ["reset 5", "new 0 1"]
    for _ in range(12): sc.append("%s %s %s" % (rng.choice(["insert", "key_set"]), rng.choice(ks), rng.choice(vs)) if rng.random() < .5 else rng.choice(["get " + rng.choice(ks), "find_val " + rng.choice(vs), "find_val " + rng.choice(vs), "idx_set 0 " + rng.choice(vs), "key_rm " + rng.choice(ks)]))
    return sc + ["release"]
def generate(rng, tier): return [huge(rng) for _ in range(12 if tier == "quick" else 100)] + [big(rng, n) for n in ((150, 270) if tier == "quick" else (100, 200, 270, 400, 600))] + [history(rng, rng.choice([30, 100, 250])) for _ in range(250 if tier == "quick" else 3000)]
def generate_fault(rng, tier): return [history(rng, 90, True) for _ in range(80 if tier == "quick" else 800)]
def map_(**kw):
    d = dict(name="map", driver="drv_map.c", sources=["map/map.c"], trace="MapTrace", mc=[("MCMap", "MCMap")], generate=generate, ops=OPS,
             walk_reset=["reset %d %d" % (s, z) for s, z in [(1, 1), (12345, 2), (99, 4), (2**31 - 1, 4), (7, 8), (424242, 4), (31337, 2), (5, 4)]],
             trace_cfg="INVARIANT DistinctKeys OnlyIfExists\n", wraps=["rand", "srand"], walk_limit=dict(quick=20000, thorough=300000))
    d.update(kw); return Comp(**d)
