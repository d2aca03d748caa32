from .base import *
OPS = "new clear release grow resize shrink wipe add copy insert append fill pop pop_ex peek peek_ex get get_ex set swap shift_up count index_of del_index del_range del_val".split()

def history(rng, n, fault=False):
    sc = ["reset %d %d" % (rng.choice([1, 2, 4, 7, 8, 16, 24, 33, 64, 300]), rng.randrange(4))]
    nv = rng.choice([2, 3, 200])
    ln = [0, 0]                       # rough guess of the lengths, for choosing indices
    v = lambda: rng.randrange(nv)
    def idx(o):
        r = rng.random()
        if r < .75: return rng.randrange(max(1, ln[o] + 1))
        if r < .9: return ln[o] + rng.randrange(-2, 3) if ln[o] > 2 else ln[o]
        return rng.choice([-1, -2, "h8000000000000000", 1000, 0])
    def amt(o): return pick(rng, (4, rng.randrange(0, 4)), (2, rng.randrange(max(1, ln[o] + 2))), (1, -1), (1, -2), (1, "h7fffffffffffffff"), (1, -rng.randrange(1, 10)))
    for o in (1, 2): sc.append("new %d %d %d" % (o, rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 3, 4, 5, 8, 17, 33]) if rng.random() < .8 else rng.randrange(2, 60)))
    bias = rng.choice([1, 1, 6])
    while len(sc) < n:
        o = rng.randrange(2); k = o + 1
        op = pick(rng, (6 * bias, "insert"), (4 * bias, "append"), (1, "fill"), (2, "pop"), (2, "pop_ex"), (1, "peek"), (1, "peek_ex"), (3, "get"), (2, "get_ex"), (3, "set"),
                  (2, "swap"), (3, "shift_up"), (3, "count"), (4, "index_of"), (4, "del_index"), (4, "del_range"), (4, "del_val"), (3, "grow"), (2, "resize"), (2, "shrink"),
                  (.5, "wipe"), (3, "add"), (2, "copy"), (.3, "clear"), (.3, "release"), (.6, "new"))
        if fault and rng.random() < .3 and op in ("grow", "resize", "shrink", "new"): sc.append("fail %d" % rng.choice([1, 1, 2]))
        if op in ("insert", "append"): sc.append("%s %d %d" % (op, k, v())); ln[o] += 1
        elif op in ("fill", "count", "del_val"): sc.append("%s %d %d" % (op, k, v())); ln[o] -= op == "del_val" and ln[o] > 0
        elif op in ("pop", "pop_ex"): sc.append("%s %d" % (op, k)); ln[o] = max(0, ln[o] - 1)
        elif op in ("peek", "peek_ex", "swap", "grow", "wipe", "clear", "release"):
            sc.append("%s %d" % (op, k))
            if op in ("wipe", "clear", "release"): ln[o] = 0
        elif op in ("get", "get_ex", "del_index"): sc.append("%s %d %s" % (op, k, idx(o))); ln[o] -= op[0] == "d" and ln[o] > 0
        elif op == "set": sc.append("set %d %s %d" % (k, idx(o), v()))
        elif op in ("shift_up", "del_range"): sc.append("%s %d %s %s" % (op, k, idx(o), amt(o))); ln[o] = max(0, ln[o] - 2)
        elif op == "index_of": sc.append("index_of %d %d %s" % (k, v(), idx(o)))
        elif op == "resize": sc.append("resize %d %s" % (k, pick(rng, (3, rng.randrange(0, 12)), (3, ln[o]), (2, max(0, ln[o] - 3)), (2, rng.randrange(30)), (1, -1), (.5, "h4000000000000000"), (.5, "h2000000000000001"))))
        elif op == "shrink": sc.append("shrink %d %d" % (k, rng.randrange(2)))
        elif op in ("add", "copy"): sc.append("%s %d %d" % (op, k, rng.random() < .25))
        elif op == "new": sc.append("new %d %d %s" % (k, rng.randrange(4), rng.choice([0, 1, 2, 4, 9, 20])))
    sc.append("release 1"); sc.append("release 2")
    return sc

def many(rng, n):
    "few calls on arrays with hundreds of items"
    sc = ["reset %d %d" % (rng.choice([1, 3, 8, 20, 260]), rng.randrange(4)), "new 1 %d %d" % (rng.choice([0, 1, 2]), n), "new 2 %d %d" % (rng.choice([0, 3]), rng.choice([4, n, n // 2, 2 * n]))]
    i = lambda: rng.choice([0, n - 1, n, n // 2, 255, 256, 257, rng.randrange(n), rng.randrange(n)])
    sc.append("fill 1 9")
    for j in range(rng.choice([5, 40])): sc.append("set 1 %d %d" % (i(), rng.randrange(200)))
    for _ in range(30):
        k = rng.choice([1, 1, 1, 2]); op = rng.choice("insert pop pop_ex get set swap shift_up count index_of index_of del_index del_range del_val grow shrink copy copy add resize fill".split())
        sc.append({"insert": "insert %d 7" % k, "pop": "pop %d" % k, "pop_ex": "pop_ex %d" % k, "get": "get_ex %d %d" % (k, i()), "set": "set %d %d %d" % (k, i(), rng.randrange(200)), "swap": "swap %d" % k,
                   "shift_up": "shift_up %d %d %d" % (k, i(), rng.choice([1, 2, 255, 256, 257, 40])), "count": "count %d 9" % k, "index_of": "index_of %d %d %d" % (k, rng.choice([9, 9, rng.randrange(200)]), i()),
                   "del_index": "del_index %d %d" % (k, i()), "del_range": "del_range %d %d %d" % (k, i(), rng.choice([1, 2, 100, 256])), "del_val": "del_val %d %d" % (k, rng.choice([9, rng.randrange(200)])), "grow": "grow %d" % k,
                   "shrink": "shrink %d %d" % (k, rng.randrange(2)), "copy": "copy %d 0" % k, "add": "add %d 0" % k, "resize": "resize %d %d" % (k, rng.choice([n, 2 * n, n // 2, 256, 300])), "fill": "fill %d 9" % k if rng.random() < .3 else "peek %d" % k}[op])
    return sc + ["release 1", "release 2"]
def generate(rng, tier):
    n = 160 if tier == "quick" else 2500
    return [many(rng, rng.choice([255, 256, 257, 300, 400, 513])) for _ in range(n // 12)] + [history(rng, rng.choice([40, 120, 300])) for _ in range(n)]
def generate_fault(rng, tier):
    n = 60 if tier == "quick" else 800
    return [history(rng, 100, True) for _ in range(n)]

def array(**kw):
    d = dict(name="array", driver="drv_array.c", sources=["array/array.c"], trace="ArrayTrace", mc=[("MCArray", "MCArray")],
             generate=generate, ops=OPS, walk_reset=["reset 1", "reset 4", "reset 7", "reset 8", "reset 40 1", "reset 20 3"], trace_cfg="INVARIANT TypeOK\n",
             mc_thorough=[("MCArray", "MCArrayThorough")])
    d.update(kw); return Comp(**d)
