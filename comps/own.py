from .base import *
from .plugin import libs
HEAP, STACK = [1, 2, 3, 4, 5, 6, 7, 8, 10], [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15]
ALL = ["str/str.c", "array/array.c", "bytebuffer/bytebuffer.c", "deque/deque.c", "map/map.c", "tree/tree.c", "tuple/tuple.c", "variant/variant.c", "msg_span/msg_span.c", "msg_sys/msg_sys.c", "lex/lex.c", "cfg/cfg.c", "math/math_parser.c",
       "allocators/region/region.c", "allocators/bistack/bistack.c", "allocators/objpool/objpool.c", "allocators/mempool/mempool.c", "plugins/plugins.c"]
def gen(rng, tier):
    out = []
    for i in range(220 if tier == "quick" else 4000):
        sc = ["reset"]
        fault = rng.random() < .5
        kinds = rng.sample(range(1, 16), rng.choice([1, 1, 2, 4]))
        amt = lambda: rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 40])
        for _ in range(rng.choice([60, 160])):
            s = rng.randrange(5); o = rng.randrange(30); pre = "fail %d" % rng.choice([1, 1, 1, 2, 3, 4, 7]) if fault and rng.random() < .25 else None
            if o < 6:
                k = rng.choice(kinds); h = k in HEAP and (k not in STACK or rng.random() < .6)
                l = "new %d %d %d %d" % (s, k, h, amt())
            elif o < 24: l = "use %d %d %d" % (s, rng.randrange(90), amt())
            elif o < 27: l = "two %d %d %d" % (s, rng.randrange(5), rng.randrange(2))
            elif o == 27: l = "clear %d" % s
            else: l = "free %d" % s
            if pre and o < 27: sc.append(pre)
            sc.append(l)
            if l[:5] == "clear" and rng.random() < .4: sc.append(l)
        sc += ["free %d" % i for i in range(5)]
        out.append(sc)
    return out
def own(**kw):
    d = dict(name="own", driver="drv_own.c", sources=ALL, trace="OwnTrace", mc=[("MCOwn", "MCOwn")], generate=gen, ops="new use two clear free".split(), walk_reset=["reset"], prepare=libs, wraps=["dlopen", "dlclose"], need=['"oom":true'],
             trace_cfg="CONSTANTS Slots = {0, 1, 2, 3, 4}\nKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}\nHeapKinds = {1, 2, 3, 4, 5, 6, 7, 8, 10}\nStackKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15}\nTreeKind = 6\nCfgKind = 10\nINVARIANT TypeOK\n",
             walk_limit=dict(quick=30000, thorough=100000))
    d.update(kw); return Comp(**d)
