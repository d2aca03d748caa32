from .base import *
OPS = "mode add_head add_tail add_after remove pop_head links".split()
def history(rng, n):
    k = rng.choice([1, 2, 3]); t = rng.random() < .8
    sc = ["reset", "mode %d %d" % (k, t)]; lst = []; pool = list(range(1, rng.choice([3, 6, 24, 24, 90, 299]) if n > 100 else rng.choice([3, 6, 24])))
    while len(sc) < n:
        free = [x for x in pool if x not in lst]
        op = pick(rng, (3, "add_head"), (3, "add_tail"), (3, "add_after"), (5 if rng.random() < .6 else 1, "rm"), (.2, "links"))
        if op == "links": sc.append("links %d %d %d" % tuple(rng.choice([rng.randrange(3), rng.randrange(24)]) for _ in range(3)))
        elif op == "rm":
            if not lst: continue
            if k == 1: sc.append("pop_head"); lst.pop(0)
            elif t: x = rng.choice(lst); lst.remove(x); sc.append("remove %d" % x)
        elif not free: continue
        elif op == "add_head": x = rng.choice(free); lst.insert(0, x); sc.append("add_head %d" % x)
        elif op == "add_tail" and t: x = rng.choice(free); lst.append(x); sc.append("add_tail %d" % x)
        elif op == "add_after" and lst:
            x = rng.choice(free); m = rng.choice(lst); lst.insert(lst.index(m) + 1, x); sc.append("add_after %d %d" % (m, x))
        elif not t and not (free and k > 1): break
        if not t and k > 1 and len(lst) == len(pool): break
    return sc
def generate(rng, tier): return [history(rng, rng.choice([20, 60, 150, 150, 700])) for _ in range(200 if tier == "quick" else 3000)]
def links(**kw):
    d = dict(name="links", driver="drv_links.c", sources=[], trace="LinksTrace", mc=[("MCLinks", "MCLinks")], generate=generate, ops=OPS,
             walk_reset=["reset"], trace_cfg="INVARIANT NoRepeats\n", walk_limit=dict(quick=15000))
    d.update(kw); return Comp(**d)
