from .base import *
KINDS = dict(array=(1, ["array/array.c"], 0, 0), bytebuf=(2, ["bytebuffer/bytebuffer.c"], 251, 0), str=(3, ["str/str.c"], 26, 97), deque=(4, ["deque/deque.c"], 0, 0), map=(5, ["map/map.c"], 0, 0), tree=(6, ["tree/tree.c", "array/array.c"], 0, 0))
def gen(kind):            # (a map of consecutive numbers takes time quadratic in its size beyond that)
    quick_max = dict(array=140000, bytebuf=140000, str=140000, deque=80000, map=70000, tree=70000)[kind]
    def history(rng, marks, n):
        sc = ["reset"]; ln = 0; nxt = rng.choice([0, 1, 100, 250, 65530] if kind != "map" else [0, 1, 100, 250]); doubles = 2
        def push(k, op="push"):
            nonlocal ln, nxt
            sc.append("%s %d %d" % (op, nxt, k)); ln += k; nxt += k
        for m in marks:
            if m > ln: push(m - ln - rng.randrange(3) if m - ln > 3 else m - ln, rng.choice(["push", "push", "bulk"]) if kind in ("bytebuf", "str") else rng.choice(["push", "front"]) if kind == "deque" else "push")
            for _ in range(n):
                o = rng.randrange(10); at = lambda: max(0, min(ln - 1, rng.choice([0, 1, ln - 1, ln - 2, ln // 2, rng.randrange(max(1, ln)), 255, 256, 65535, 65536, m - 1, m, m - 2])))
                if o < 3: push(rng.choice([1, 1, 2, 3]))
                elif o == 3 and kind in ("array", "bytebuf", "str", "map", "tree") and ln > 3:
                    k = rng.choice([1, 1, 2, 3] if kind in ("map", "tree") else [1, 2, rng.randrange(1, 300)]); p = at()
                    k = min(k, ln - p)
                    if k > 0: sc.append("del %d %d" % (p, k)); ln -= k
                elif o == 4 and kind in ("array", "tree"): sc.append("set %d %d" % (at(), nxt)); nxt += 1
                elif o == 5 and kind in ("array", "deque"):
                    k = min(ln, rng.choice([1, 2, 5])); sc.append("%s %d" % (rng.choice(["pop", "popf"]) if kind == "deque" else "pop", k)); ln -= k
                elif o == 6 and kind in ("array", "map", "tree"): sc.append("find %d" % (nxt - rng.choice([0, 1, 2, rng.randrange(1, max(2, ln))])))
                elif o == 7: sc.append("same %d" % (rng.choice([ln, ln + 1, ln * 2]) if kind in ("map",) else rng.choice([0, 1, ln + 5, ln * 2]) if kind == "array" else rng.randrange(9) if kind == "str" else rng.randrange(3)))
                elif o == 8 and kind == "deque": push(rng.choice([1, 2, 3]), "front")
                elif o == 9 and kind in ("bytebuf", "str") and 0 < ln * 2 < quick_max and doubles and rng.random() < .3: sc.append("double"); ln *= 2; doubles -= 1
            if kind == "str": sc += ["rev"]
        if kind in ("array", "bytebuf", "str"):
            k = ln - 300
            if k > 0: sc.append("del 100 %d" % k); ln -= k
        elif kind == "deque": sc.append("pop %d" % (ln - ln // 3)); sc.append("popf %d" % (ln // 3 - 2))
        push(5); sc.append("clear"); ln = 0; push(9)
        return sc
    def generate(rng, tier):
        out = []
        for _ in range(2 if tier == "quick" else 12): out.append(history(rng, [250, 256, 300], 25))
        for _ in range(2 if tier == "quick" else 12): out.append(history(rng, [1000, 1024, 4096, 5000], 12))
        for _ in range(2 if tier == "quick" else 10): out.append(history(rng, [8190, 8192, 16380, 16384] if kind == "map" else [32760, 32768, 65530, 65536] + ([131070, 131072] if quick_max > 131072 else []), 9))
        return out
    return generate
def big(kind):
    def f(**kw):
        k, src, mod, base = KINDS[kind]
        d = dict(name="big" + kind, driver="drv_big.c", sources=src, trace="BigTrace", mc=[("MCBig", "MCBig"), ("MCBig", "MCBig0")], generate=gen(kind), cflags=["-DKIND=%d" % k],
                 ops=["push"], walk_reset=["reset"], trace_cfg="CONSTANTS Mod = %d Base = %d\n" % (mod, base), walk_limit=dict(quick=3000, thorough=20000))
        d.update(kw); return Comp(**d)
    return f
