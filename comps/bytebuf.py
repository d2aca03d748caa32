from .base import *
OPS = "new release clear insert zeros del append copy to_file".split()
def history(rng, n, fault=False):
    sc = ["reset", "new 1 %d" % rng.randrange(2), "new 2 %d" % rng.randrange(2)]
    ln = [0, 0]; used = [False, False]
    big = rng.random() < .3
    while len(sc) < n:
        o = rng.randrange(2); k = o + 1
        op = pick(rng, (10, "insert"), (2, "zeros"), (4, "del"), (2, "append"), (2, "copy"), (1, "to_file"), (.5, "clear"), (.4, "release"), (.8, "new"))
        if fault and rng.random() < .3: sc.append("fail 1")
        rb = lambda m: bytes(rng.randrange(256) for _ in range(m))
        if op == "insert":
            kind = pick(rng, (2, "byte"), (1, "i16"), (1, "i32"), (1, "i64"), (1, "ptr"), (1, "f32"), (1, "f64"), (1, "fmax"), (2, "cstr"), (3, "obj"), (.7, "file"), (.7, "filename"), (.2, "nofile"), (.15, "dir"), (.2, "unreadable"))
            m = dict(byte=1, i16=2, i32=4, i64=8, ptr=8, f32=4, f64=8, fmax=8).get(kind)
            if m is None: m = rng.choice([0, 0, 1, 2, 3, 7, 16, 40]) if not big else rng.choice([0, 1, 60, 130])
            v = rb(m)
            if kind == "cstr": v = bytes(x or 1 for x in v)
            if kind in ("f32", "f64", "fmax"): v = bytes([1, 2, 3, 4, 5, 6, 7, 0x40][-m:]) if rng.random() < .5 else bytes(m)
            sc.append("insert %d %s %s" % (k, kind, hexs(v))); ln[o] += m; used[o] = True
        elif op == "zeros": sc.append("zeros %d %s" % (k, rng.choice([0, 0, 1, 3, 9, 40, -1, "h4000000000000000"] if rng.random() < .5 else [0, 2, 5]))); ln[o] += 3
        elif op == "del":
            i = rng.choice([0, rng.randrange(ln[o] + 2), max(0, ln[o] - 1), ln[o], -1])
            sc.append("del %d %s %s" % (k, i, rng.choice([0, 1, 2, 5, ln[o], ln[o] + 1, -1, -2, -5]))); ln[o] = max(0, ln[o] - 3)
        elif op in ("append", "copy"): sc.append("%s %d %d" % (op, k, rng.random() < .3)); ln[o] += ln[1 - o] if op == "append" else 0
        elif op == "new": sc.append("new %d %d" % (k, rng.randrange(2)))
        else:
            sc.append("%s %d" % (op, k))
            if op in ("clear", "release"): ln[o] = 0
    return sc + ["release 1", "release 2"]
SIZES = [255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8192, 9000]
def large(rng):
    base = bytes(rng.randrange(256) for _ in range(61)); sc = ["reset 20000", "new 1 0", "new 2 1"]
    big = lambda: (base * 200)[rng.randrange(60):][:rng.choice(SIZES) + rng.choice([0, 0, -1, 1])]
    for _ in range(8):
        k = 1 + (rng.random() < .3); op = pick(rng, (6, "insert"), (1, "zeros"), (1, "append"), (1, "copy"), (2, "to_file"), (1, "del"))
        if op == "insert":
            v = big(); kind = rng.choice(["obj", "file", "file", "filename", "cstr"])
            sc.append("insert %d %s %s" % (k, kind, hexs(bytes(x or 1 for x in v) if kind == "cstr" else v)))
        elif op == "zeros": sc.append("zeros %d %d" % (k, rng.choice(SIZES)))
        elif op == "del": sc.append("del %d %d %d" % (k, rng.randrange(3000), rng.randrange(6000)))
        elif op == "to_file": sc.append("to_file %d%s" % (k, rng.choice(["", "", " %d" % rng.choice([0, 1, 5, 64, 4096])])))
        else: sc.append("%s %d %d" % (op, k, rng.random() < .3))
    return sc + ["release 1", "release 2"]
BOUNDS = [1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000]
def bounded(rng):
    """inserted sizes around powers of two into buffers that already hold something"""
    base = bytes(rng.randrange(256) for _ in range(67))
    def data(m): return ((base * (m // 67 + 2))[rng.randrange(60):])[:m]
    sc = ["reset 20000", "new 1 0", "new 2 1"]; used = 0
    for _ in range(14):
        if used > 14000: break
        k = 1 + (rng.random() < .4); op = pick(rng, (7, "insert"), (1, "zeros"), (1, "append"), (1, "copy"), (1, "to_file"), (1.5, "del"), (1, "byte"))
        if op == "insert":
            m = rng.choice(BOUNDS); used += m; v = data(m); kind = rng.choice(["obj", "file", "file", "filename", "cstr", "cstr"])
            sc.append("insert %d %s %s" % (k, kind, hexs(bytes(x or 1 for x in v) if kind == "cstr" else v)))
        elif op == "zeros": sc.append("zeros %d %d" % (k, rng.choice(BOUNDS)))
        elif op == "byte": sc.append("insert %d byte %s" % (k, hexs(data(1))))
        elif op == "del": sc.append("del %d %d %d" % (k, rng.choice([0, 1, 64, 255, 256]), rng.choice(BOUNDS)))
        elif op == "to_file": sc.append("to_file %d%s" % (k, rng.choice(["", "", " %d" % rng.choice([0, 1, 5, 64, 4096])])))
        else: sc.append("%s %d %d" % (op, k, rng.random() < .3)); used += 1000
    return sc + ["release 1", "release 2"]
def generate(rng, tier): return [bounded(rng) for _ in range(40 if tier == "quick" else 400)] + [large(rng) for _ in range(16 if tier == "quick" else 150)] + [history(rng, rng.choice([40, 120])) for _ in range(200 if tier == "quick" else 3000)]
def generate_fault(rng, tier): return [history(rng, 80, True) for _ in range(60 if tier == "quick" else 800)]
def bytebuf(**kw):
    d = dict(name="bytebuf", driver="drv_bytebuf.c", sources=["bytebuffer/bytebuffer.c"], trace="ByteBufTrace", mc=[("MCByteBuf", "MCByteBuf")],
             generate=generate, ops=OPS, walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", walk_limit=dict(quick=15000, thorough=150000))
    d.update(kw); return Comp(**d)
