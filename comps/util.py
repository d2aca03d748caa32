from .base import *
def gen_int(rng, tier):
    out = []
    def w():
        r = rng.random()
        if r < .3: v = rng.randrange(2 ** rng.randrange(1, 65))
        elif r < .6: v = rng.choice([2, 3, 5, 6, 7, 10, 11, 12, 60, 255, 256, 1000]) ** rng.randrange(0, 20) + rng.choice([-1, 0, 1])
        elif r < .8: v = (1 << rng.randrange(64)) + rng.choice([-1, 0, 1, 1 << rng.randrange(64)])
        else: v = rng.choice([0, 1, 2, 3, 9, 10, 99, 100, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 10**19, 10**19 - 1])
        return "h%x" % (v % 2 ** 64)
    for _ in range(60 if tier == "quick" else 1000):
        sc = ["reset"]
        for _ in range(60):
            k = rng.randrange(9)
            if k == 0: sc.append("base " + rng.choice(["h%x" % rng.randrange(3, 70), w(), w(), "h%x" % (2 ** rng.randrange(1, 64))])) if rng.random() > .1 else sc.extend(["fail 1", "base h3"])
            elif k < 4: sc.append("logn " + w())
            elif k < 6: sc.append("word " + w())
            elif k == 6: sc.append("align %s h%x" % (w(), rng.choice([0, 1, 2, 4, 8, 16, 64, 4096, 1 << rng.randrange(64)])))
            elif k == 7:
                a, b, c = w(), w(), w(); sc.append("bounds %s %s %s" % rng.choice([(a, b, c), (a, a, c), (a, b, a), (b, a, a)]))
            else: sc.append(rng.choice(["hash %s %s %s" % (hexs(bytes(rng.randrange(1, rng.choice([128, 256])) for _ in range(rng.choice([0, 1, 3, 8, 9, 20, 40])))), rng.choice(["0", "1", w()]), w()), "mask %d" % rng.randrange(9), "ptr %s h%x" % (w(), 1 << rng.randrange(13))]))
        out.append(sc)
    return out
def ints(**kw):
    d = dict(name="inthelp", driver="drv_int.c", sources=[], trace="IntHelpTrace", mc=[("MCInt", "MCInt")], generate=gen_int, ops="word align bounds mask ptr base logn hash".split(),
             walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", need=['"oom":true'])
    d.update(kw); return Comp(**d)
def gen_random(rng, tier):
    out = []
    for _ in range(40 if tier == "quick" else 400):
        sc = ["reset"]
        for _ in range(14):
            g = rng.randrange(1, 3); k = rng.randrange(8)
            if k == 0 or len(sc) < 3: sc.append("seed %d h%x" % (g, rng.choice([0, 1, 2, 4357, 5489, 2**31, 2**32 - 1, rng.randrange(2**32), rng.randrange(2**32)])))
            elif k == 1: sc.append("copy %d %d" % (g, 3 - g))
            else: sc.append("%s %d %d" % (rng.choice(["draw", "draw", "drawf"]), g, rng.choice([1, 2, 10, 226, 227, 228, 396, 397, 398, 623, 624, 625, 700, 1249])))
        out.append(sc)
    W = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x9908b0df, 0x0000ffff, 0xffff0000, 0x55555555, 0xaaaaaaaa]
    for k in range(16 if tier == "quick" else 200): # any state at all, any place in it
        sc = ["reset", "fill 1 h%x" % rng.choice(W)]
        if rng.random() < .5: sc.append("seed 1 h%x" % rng.randrange(2 ** 32))
        for _ in range(rng.choice([0, 1, 3, 30])): sc.append("word 1 %d h%x" % (rng.choice([0, 1, 2, 226, 227, 228, 396, 397, 398, 622, 623, rng.randrange(624)]), rng.choice(W + [rng.randrange(2 ** 32)])))
        for _ in range(4):
            if rng.random() < .6: sc.append("index 1 %s" % rng.choice([0, 1, 226, 227, 396, 397, 622, 623, 624, 625, 626, 627, 1000, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -1]))
            sc.append("%s 1 %d" % (rng.choice(["draw", "drawf"]), rng.choice([1, 2, 228, 398, 625, 1249])))
            if rng.random() < .3: sc += ["copy 2 1", "draw 2 3", "word 1 %d h%x" % (rng.randrange(624), rng.choice(W))]
        out.append(sc)
    for w in range(0, 2 ** 16, 4001 if tier == "quick" else 97): # states of few bits, where the words drawn have special forms
        out.append(["reset", "fill 1 h0", "word 1 %d h%x" % (w % 624, 1 << (w % 32)), "word 1 %d h%x" % ((w * 7) % 624, 0xffffffff >> (w % 31)), "draw 1 1248"])
    for i in (0, 1, 2, 226, 227, 228, 395, 396, 397, 398, 399, 622, 623): # only one word that is not zero
        out.append(["reset"] + [x for v in (1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff) for x in ("fill 1 h0", "word 1 %d h%x" % (i, v), "index 1 624", "draw 1 3", "draw 1 622")])
    return out
def random_(**kw):
    d = dict(name="random", driver="drv_random.c", sources=[], trace="RandomTrace", mc=[("MCRandom", "MCRandom")], generate=gen_random, ops="seed draw drawf copy fill word index".split(),
             walk_reset=["reset"], walk_len=40, trace_cfg="CONSTANTS Gens = {1, 2}\nINVARIANT TypeOK\n", walk_limit=dict(quick=1500, thorough=20000))
    d.update(kw); return Comp(**d)
def gen_buf(rng, tier):
    out = []
    T = lambda: hexs(bytes(rng.choice([97, 98, 99, 255, 1]) for _ in range(rng.choice([0, 1, 2, 5, 40]))))
    def late():
        "long texts of one character whose 97, 98 or 255 comes late"
        m = rng.choice([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 600]); t = bytearray([rng.choice([99, 98, 1])]) * m
        if rng.random() < .7: t[m - 1 - rng.choice([0, 0, 1, 3])] = rng.choice([97, 98, 255])
        return hexs(t)
    def near():
        "texts that differ late: alternatives with common beginnings"
        base = bytes(rng.choice([97, 98]) for _ in range(rng.choice([3, 8, 16, 33, 64, 129, 257])))
        return [base] + [rng.choice([base, base[:-1], base + b"a", base[:-1] + b"z", base[:rng.randrange(len(base))], base[:rng.randrange(len(base))] + b"q" + base[1:]]) for _ in range(5)]
    for _ in range(80 if tier == "quick" else 1500):
        sc = ["reset"]; big = rng.choice([6, 20, 300])
        for _ in range(50):
            k = rng.randrange(12); n = lambda: rng.choice([0, 1, 2, rng.randrange(big), rng.randrange(big), big, big + 3])
            x = lambda: str(n()) if rng.random() < .85 else rng.choice(["-1", "-2", "h8000000000000000", "h4000000000000001", "h2000000000000001"])
            if rng.random() < .12: sc.append("fail %d" % rng.randrange(1, 8))
            if k == 0: sc.append("calloc %d %d %d" % (rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), n(), rng.randrange(5)))
            elif k == 1: sc.append("fill %d" % n())
            elif k == 2: sc.append("recalloc %s %s" % (n(), rng.choice(["", "single"])))
            elif k < 7: sc.append("shift %s %s %s" % (x(), x(), rng.choice(["", "multi"])))
            elif k == 7: sc.append("cleanup") if rng.random() < .4 else sc.append("fill %d" % big)
            elif k == 8: sc.append(rng.choice(["dup ", "duptext ", "mempcpy "]) + (T() if rng.random() < .7 else late()) + rng.choice(["", " 1", " 70", " 5000"])) if rng.random() < .7 else sc.append("size %s %d" % (T(), rng.choice([0, 1, 3, 20, 99])))
            elif k == 9: sc.append("switch %s %s" % (T(), " ".join(T() for _ in range(rng.randrange(6))))) if rng.random() < .5 else sc.append("switch " + " ".join(hexs(x) for x in near()))
            elif k == 10: sc.append(rng.choice(["sprintf %d " % rng.choice([0, 5, -5, 2**29, -123456789]), "memccpy %d " % rng.choice([97, 98, 255, 0])]) + (T() if rng.random() < .6 else late() if rng.random() < .97 else hexs(b"ab" * rng.choice([511, 512, 2047, 2048, 3000]))))
            else: sc.append("load %s %s" % ((T() if rng.random() < .6 else late()) if rng.random() < .9 else "none", rng.choice(["file 0", "file 1", "file 7", "file 40", "text", "binary", "text", "binary", "file 3", "unreadable", "dir 0", "dir 1"])))
        out.append(sc)
    return out
def long_buf():
    "texts around the sizes where a fixed room would end"
    for n in (254, 255, 256, 510, 1022, 1023, 2046, 4094, 5000):
        t = hexs(bytes(97 + i % 23 for i in range(n))); last = hexs(b"c" * n + b"b")
        yield ["reset", "sprintf -7 " + t, "duptext " + t, "dup " + t, "mempcpy " + t, "memccpy 98 " + last, "memccpy 97 " + last, "load %s file 9" % t, "load %s text" % t, "load %s binary" % t, "switch %s %s %s %s" % (t, last, t[:-2], t)]
    for n in (1, 2, 3, 6):
        for kind in range(5):
            sc = ["reset"]
            for a, b, c in ((1, 9, 2), (3, 64, 40), (10, 300, 290), (300, 301, 5), (0, 33, 1)):
                for how in ("", " single"): sc += ["cleanup", "calloc %d %d %d" % (n, a, kind), "fill %d" % a, "recalloc %d%s" % (b, how), "fill %d" % (b - 1), "shift %d %d" % (a, c % 7), "recalloc %d%s" % (c, how), "recalloc %d%s" % (b + 20, how), "shift 0 1"]
            yield sc
    for n in (8191, 8192, 8193, 20000, 65535, 65536, 70001):
        t = hexs(bytes(97 + i % 23 for i in range(n))); yield ["reset"] + ["load %s %s" % (t, k) for k in ("text", "binary", "file 0", "file 9")]
def buffers(**kw):
    d = dict(name="buffers", driver="drv_buf.c", sources=[], trace="BuffersTrace", mc=[("MCBuffers", "MCBuffers")], generate=lambda rng, tier: gen_buf(rng, tier) + list(long_buf()),
             ops="calloc fill recalloc shift cleanup dup duptext switch sprintf mempcpy memccpy load size".split(), walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", need=['"oom":true'])
    d.update(kw); return Comp(**d)
