from .base import *
OPS = "new release clear rst append prepend pop_front pop_back probe".split()
def history(rng, n, fault=False):
    sc = ["reset %d %d" % (rng.choice([1, 2, 8, 13, 40, 300]), rng.randrange(4)), "new %d %d" % (rng.randrange(2), rng.choice([1, 2, 3, 4, 8]))]
    mode = rng.random()
    while len(sc) < n:
        if rng.random() < .05: mode = rng.random()
        g = 8 if mode < .5 else 3
        op = pick(rng, (g, "append"), (g, "prepend"), (5, "pop_front"), (5, "pop_back"), (.3, "rst"), (.15, "clear"), (.15, "release"), (.6, "probe"), (.4, "new"))
        if fault and rng.random() < .3: sc.append(rng.choice(["fail 1", "fail 2", "fail 3", "fail 4", "fail 5", "fail 1 9"]))
        if op in ("append", "prepend"): sc.append("%s %d" % (op, rng.randrange(250)))
        elif op == "new": sc.append("new %d %d" % (rng.randrange(2), rng.choice([0, 1, 2, 4])))
        elif op == "probe": sc.append("probe %s" % rng.choice([-1, 100000, -2, -3, -3]))
        else: sc.append(op)
    return sc + ["release"]
def many(rng, n):
    "grows to hundreds of items and shrinks again, from both ends"
    sc = ["reset %d %d" % (rng.choice([1, 8, 33]), rng.randrange(4)), "new %d %d" % (rng.randrange(2), rng.choice([1, 3, 8, 200]))]; k = 0
    ops = rng.choice([["append"], ["prepend"], ["append", "prepend"]]); out = rng.choice([["pop_front"], ["pop_back"], ["pop_front", "pop_back"]])
    while k < n:
        if rng.random() < .06 and k: sc.append(rng.choice(["pop_front", "pop_back"])); k -= 1
        else: sc.append("%s %d" % (rng.choice(ops), k * 7 % 250)); k += 1
    while k and rng.random() > .002: sc.append(rng.choice(out)); k -= 1
    return sc + ["append 1", "prepend 2", rng.choice(["rst", "clear", "pop_back"]), "append 3", "release"]
def generate(rng, tier): return [many(rng, n) for n in ((130, 270) if tier == "quick" else (70, 130, 200, 270, 300, 520))] + [history(rng, rng.choice([30, 100, 250])) for _ in range(200 if tier == "quick" else 3000)]
def generate_fault(rng, tier): return [history(rng, 80, True) for _ in range(80 if tier == "quick" else 800)]
def deque(**kw):
    d = dict(name="deque", driver="drv_deque.c", sources=["deque/deque.c"], trace="DequeTrace", mc=[("MCDeque", "MCDeque")],
             generate=generate, ops=OPS, walk_reset=["reset 1", "reset 8"], trace_cfg="INVARIANT UniqueHandles OnlyIfExists\n")
    d.update(kw); return Comp(**d)
