from .base import *
OPS = "new set share clear free".split()
def history(rng, n, fault=False):
    sc = ["reset"]
    V = lambda: hexs(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 4, 8, 8, 17, 64, 200]))))
    while len(sc) < n:
        if fault and rng.random() < .4: sc.append(rng.choice(["fail 1", "fail 2"]))
        i = rng.choice([1, 2]); op = pick(rng, (2, "new"), (4, "set"), (2, "share"), (.7, "clear"), (.7, "free"))
        if op == "new": sc.append("new %d %s %d %d" % (i, V(), rng.choice([0, 1, -1, 7, 900000000, -900000000]), rng.randrange(2)))
        elif op == "set": sc.append("set %d %s" % (i, V()))
        elif op == "share": sc.append("share %d %d" % (i, rng.choice([1, 2])))
        else: sc.append("%s %d" % (op, i))
    return sc + ["free 1", "free 2"]
def battery(rng):
    "values of every kind of size"
    out = []
    S = sorted(set([m + d for m in (1, 8, 16, 32, 64, 100, 128, 256, 512, 1024, 2048, 4096) for d in (-1, 0, 1, 2, 3, 5)] + [rng.randrange(1, 4900) for _ in range(10)]))
    B = lambda n: hexs(bytes((k * 7 + n) % 251 for k in range(n)))
    rng.shuffle(S)
    for k in range(0, len(S), 8):
        sc = ["reset", "new 1 %s 5 0" % B(3), "new 2 %s -6 1" % B(4)]
        for n in S[k:k + 8]: sc += ["set 1 " + B(n), "set 2 " + B(n), "set 1 " + B(max(1, n - 1)), "share 2 1", "clear 1", "free 1", "new 1 %s %d 1" % (B(n), rng.choice([1, -1, 2**30 - 1, 255, 256]) % 2**29)]
        out.append(sc + ["free 1", "free 2"])
    return out
def generate(rng, tier): return battery(rng) + [history(rng, rng.choice([25, 80])) for _ in range(120 if tier == "quick" else 2500)]
def generate_fault(rng, tier): return [history(rng, 60, True) for _ in range(60 if tier == "quick" else 600)]
def variant(**kw):
    d = dict(name="variant", driver="drv_variant.c", sources=["variant/variant.c"], trace="VariantTrace", mc=[("MCVariant", "MCVariant")],
             generate=generate, ops=OPS, walk_reset=["reset"], trace_cfg="CONSTANTS NVars = 2\nINVARIANT ValueOnlyIfThere\n")
    d.update(kw); return Comp(**d)
