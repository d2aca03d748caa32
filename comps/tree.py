from .base import *
OPS = "new free clear set insert_val insert_node rm_index rm_node rm_foreign rm_val find_val get_idx".split()
def history(rng, n, fault=False):
    sc = ["reset"]
    vals = [b"", b"a", b"ab", b"abc", b"b", b"\0", b"\0\0", bytes(8), b"abcdefgh", bytes(rng.randrange(256) for _ in range(rng.choice([9, 33, 100])))]
    if rng.random() < .4:                # long values that differ late, or extend each other
        stem = bytes(rng.randrange(256) for _ in range(rng.choice([8, 16, 17, 32, 64, 65, 255, 256])))
        vals[2:] = [stem + b"a", stem + b"b", stem, stem + b"ab", stem[:-1] + b"\0", b"\0" + stem]
    V = lambda: hexs(rng.choice(vals[1:] if rng.random() < .97 else vals))
    deep = rng.choice([1, 2, 4])
    def P():
        k = rng.randrange(deep)
        return "/ " + " ".join(str(rng.randrange(8)) for _ in range(k)) + (" /" if k else "")
    wide = rng.choice([2, 6, 10])
    while len(sc) < n:
        s = rng.choice([1, 1, 2])
        op = pick(rng, (2, "new"), (.15, "free"), (.2, "clear"), (3, "set"), (wide, "insert_val"), (1, "insert_node"), (1.5, "rm_index"), (1, "rm_node"), (.5, "rm_foreign"), (1.5, "rm_val"), (2, "find_val"), (1, "get_idx"))
        if fault and rng.random() < .4: sc.append(rng.choice(["fail 1", "fail 2", "fail 3", "fail 4", "fail 1 9"]))
        if op == "new": sc.append("new %d %s" % (s, V()))
        elif op == "free": sc.append("free %d" % s)
        elif op == "clear": sc.append("clear %d %s" % (s, P()))
        elif op in ("set", "insert_val", "rm_val", "find_val"): sc.append("%s %d %s %s" % (op, s, V(), P()))
        elif op in ("insert_node", "rm_foreign"): sc.append("%s %d %d %s" % (op, s, 3 - s, P()))
        else: sc.append("%s %d %s %s" % (op, s, rng.choice([0, 1, 2, 3, 5, 9, -1] if op != "rm_node" else [0, 1, 2, 3]), P()))
    return sc + ["free 1", "free 2", "reset"]
def wide(rng, n):
    "hundreds of children"
    v = lambda i: hexs(b"%d" % (i * 131)); sc = ["reset", "new 1 " + v(0), "new 2 " + v(5)]; path = rng.choice(["/", "/ 0 /"])
    if path != "/": sc.append("insert_val 1 %s /" % v(1))
    for i in range(n): sc.append("insert_val 1 %s %s" % (v(i), path))
    for _ in range(25):
        i = rng.choice([0, n - 1, n, n // 2, 255, 256, 257, rng.randrange(n)]); o = rng.choice(["find_val", "get_idx", "get_idx", "rm_index", "rm_node", "rm_val", "set"])
        sc.append("%s 1 %s %s" % (o, v(i) if o in ("find_val", "rm_val") else i, path) if o != "set" else "set 1 %s / %s%d /" % (v(rng.randrange(n)), path.strip("/").strip() + " " if path != "/" else "", i))
    return sc + ["free 1", "free 2"]
def generate(rng, tier): return [wide(rng, n) for n in ((60, 262) if tier == "quick" else (40, 130, 262, 262, 300, 520))] + [history(rng, rng.choice([25, 60, 120])) for _ in range(160 if tier == "quick" else 2500)]
def generate_fault(rng, tier): return [history(rng, 60, True) for _ in range(80 if tier == "quick" else 800)]
def tree(**kw):
    d = dict(name="tree", driver="drv_tree.c", sources=["tree/tree.c", "array/array.c"], trace="TreeTrace", mc=[("MCTree", "MCTree")],
             mc_thorough=[("MCTree", "MCTreeThorough")], generate=generate, ops=OPS, walk_reset=["reset"], trace_cfg="CONSTANTS NSlots = 2\n",
             walk_limit=dict(quick=12000, thorough=150000))
    d.update(kw); return Comp(**d)
