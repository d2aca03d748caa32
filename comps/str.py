from .base import *
OPS = ("new release clear add_char add_rep add_cstr add_str copy_cstr copy_str format read rep_char rep_cstr rep_range upper lower reverse rm_char trim "
       "count_char find_char count_cstr offsets empty palindrome cmp_str cmp_cstr scan_chars scan_int").split()
def history(rng, n, fault=False):
    alpha = rng.choice(["ab", "aA b", "abcXYZ 01\t\n", [1, 97, 128, 200, 255, 32], "ab", "-+19 0"])
    alpha = [ord(c) if isinstance(c, str) else c for c in alpha]
    def text(m): return bytes(rng.choice(alpha) for _ in range(m))
    def small(): return text(pick(rng, (1, 0), (4, 1), (4, 2), (3, 3), (2, rng.randrange(12)), (.4, rng.randrange(200))))
    sc = ["reset"]; ln = [0, 0]; ex = [False, False]
    while len(sc) < n:
        o = rng.random() < .3; k = o + 1
        if fault and rng.random() < .5: sc.append("fail %d %d" % ((f := rng.choice([1, 1, 1, 2])), rng.choice([f, 9])))
        if not ex[o]: sc.append("new %d %d %s" % (k, rng.randrange(3), hexs(small()))); ex[o] = True; ln[o] = 5; continue
        op = pick(rng, (3, "add_char"), (1.5, "add_rep"), (4, "add_cstr"), (2, "add_str"), (2, "copy_cstr"), (2, "copy_str"), (3, "format"), (2, "read"),
                  (1.5, "rep_char"), (5, "rep_cstr"), (4, "rep_range"), (1, "upper"), (1, "lower"), (1.5, "reverse"), (2, "rm_char"), (1, "trim"),
                  (1, "count_char"), (1, "find_char"), (2, "count_cstr"), (2, "offsets"), (.5, "empty"), (1.5, "palindrome"), (2, "cmp_str"), (2, "cmp_cstr"),
                  (.7, "scan_chars"), (1, "scan_int"), (.6, "clear"), (.4, "release"))
        c = rng.choice(alpha) if rng.random() < .9 else rng.randrange(1, 256)
        if op in ("add_char", "rm_char", "count_char", "find_char"): sc.append("%s %d %d" % (op, k, c))
        elif op == "add_rep": sc.append("add_rep %d %d %s" % (k, c, pick(rng, (4, rng.randrange(6)), (1, rng.randrange(100)), (.4, "-1"), (.3, "-2"), (.3, "h8000000000000000"), (.3, "-6"))))
        elif op in ("add_cstr", "copy_cstr", "count_cstr", "cmp_cstr"): sc.append("%s %d %s" % (op, k, hexs(small())))
        elif op in ("add_str", "copy_str", "cmp_str"): sc.append("%s %d %d" % (op, k, rng.random() < .3))
        elif op == "format": sc.append("format %d %d %d %s %d" % (k, rng.random() < .5, rng.randrange(5), hexs(small()), rng.choice([0, 7, -7, 42, 123456, -999999])))
        elif op == "read": sc.append("read %d %s %s" % (k, rng.choice(["file", "file", "filename", "file", "filename", "nofile", "unreadable", "dir"]), hexs(small() if rng.random() < .7 else text(rng.randrange(300)))))
        elif op == "rep_char": sc.append("rep_char %d %d %d" % (k, rng.choice([c, 0] if rng.random() < .1 else [c]), rng.choice(alpha + [0])))
        elif op == "rep_cstr": sc.append("rep_cstr %d %s %s %s" % (k, hexs(text(rng.choice([0, 1, 1, 1, 2, 2, 3]))), hexs(text(rng.choice([0, 1, 2, 3, 5]))), rng.choice([-1, -1, 0, 1, 2, 3])))
        elif op == "rep_range":
            lo = rng.choice([0, rng.randrange(12), rng.randrange(40), -1 if rng.random() < .1 else 0])
            hi = rng.choice([lo, lo + rng.randrange(6), lo + rng.randrange(6), rng.randrange(40), -1]) if lo >= 0 else 3
            sc.append("rep_range %d %d %d %s" % (k, lo, hi, hexs(small() if rng.random() < .8 else b"")))
        elif op == "offsets": sc.append("offsets %d %s %d" % (k, hexs(text(rng.choice([0, 1, 1, 2, 2, 3]))), rng.choice([0, 1, 2, 3, 6, 20])))
        else:
            sc.append("%s %d" % (op, k))
            if op == "release": ex[o] = False
    return sc + ["release 1", "release 2"]
SIZES = [255, 256, 257, 511, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 9000]
def large(rng):
    """few calls on long texts: sizes beyond the usual internal buffers"""
    base = bytes(rng.randrange(1, 256) for _ in range(61))
    big = lambda: (base * 200)[rng.randrange(60):][:rng.choice(SIZES) + rng.choice([0, 0, -1, 1])]
    sc = ["reset 12000", "new 1 0 " + hexs(big() if rng.random() < .5 else b"ab"), "new 2 0 " + hexs(b"xy")]
    for _ in range(rng.choice([5, 8])):
        k = 1 + (rng.random() < .3)
        op = pick(rng, (4, "read"), (1, "add_cstr"), (1, "copy_cstr"), (2, "format"), (1, "add_str"), (1, "copy_str"), (1, "cmp_str"), (1, "reverse"), (1, "add_rep"), (1, "rep_range"), (1, "add_char"), (1, "upper"))
        if op == "read": sc.append("read %d %s %s" % (k, rng.choice(["file", "filename"]), hexs(big())))
        elif op in ("add_cstr", "copy_cstr"): sc.append("%s %d %s" % (op, k, hexs(big())))
        elif op == "format": sc.append("format %d %d %d %s %d" % (k, rng.random() < .5, rng.choice([0, 2, 3]), hexs(big()), 42))
        elif op in ("add_str", "copy_str", "cmp_str"): sc.append("%s %d %d" % (op, k, rng.random() < .3))
        elif op == "add_rep": sc.append("add_rep %d %d %d" % (k, 65, rng.choice(SIZES)))
        elif op == "rep_range":
            lo = rng.randrange(300); sc.append("rep_range %d %d %d %s" % (k, lo, lo + rng.randrange(300), hexs(big()[:rng.randrange(900)])))
        elif op == "add_char": sc.append("add_char %d 66" % k)
        else: sc.append("%s %d" % (op, k))
    return sc + ["release 1", "release 2"]
BOUNDS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]
def bounded(rng):
    """texts whose lengths lie around powers of two, and pairs of texts that differ late or by an ending"""
    alpha = rng.choice([b"abZ", b"zZaA ", b"ab", bytes([1, 127, 128, 255, 65, 90, 97, 122]), b"XYZxyz01"])
    def text(m): return bytes(rng.choice(alpha) for _ in range(m))
    def near(t):
        t = bytearray(t); r = rng.random()
        if r < .25: return bytes(t)
        if r < .45: return bytes(t[:-rng.choice([1, 1, 2, 8])])
        if r < .65: return bytes(t + text(rng.choice([1, 1, 2, 8])))
        if t: t[rng.choice([-1, 0, rng.randrange(len(t))])] = rng.choice(alpha)
        return bytes(t)
    m = rng.choice(BOUNDS) if rng.random() < .8 else rng.choice([4095, 4096, 4097, 5000])
    t = text(m); sc = ["reset 8000", "new 1 0 " + hexs(t), "new 2 %d %s" % (rng.randrange(3), hexs(near(t)))]
    for _ in range(14 if m < 600 else 8):
        k = 1 + (rng.random() < .5); c = rng.choice(alpha)
        op = pick(rng, (3, "cmp_cstr"), (3, "cmp_str"), (2, "copy_cstr"), (2, "copy_str"), (3, "format"), (2, "lower"), (2, "upper"), (1, "rep_char"), (1, "rm_char"), (1, "trim"),
                  (1, "count_char"), (2, "find_char"), (1, "count_cstr"), (1, "offsets"), (1, "rep_cstr"), (2, "rep_range"), (1, "reverse"), (1, "palindrome"), (2, "read"), (1, "mirror"),
                  (1, "add_char"), (1, "add_cstr"), (.7, "add_str"), (.5, "scan_chars"))
        if op in ("cmp_cstr", "copy_cstr"):
            t = near(t); sc.append("%s %d %s" % (op, k, hexs(t)))
        elif op in ("cmp_str", "copy_str", "add_str"): sc.append("%s %d 0" % (op, k))
        elif op == "format":
            v = near(t) if rng.random() < .4 else text(rng.choice([0, 1, 5, 20] + BOUNDS)); sc.append("format %d %d %d %s %d" % (k, rng.random() < .6, rng.randrange(5), hexs(v), rng.choice([0, 42, -7])))
        elif op == "read": sc.append("read %d %s %s" % (k, rng.choice(["file", "filename"]), hexs(text(rng.choice([0, 3] + BOUNDS)))))
        elif op == "rep_char": sc.append("rep_char %d %d %d" % (k, c, rng.choice(alpha)))
        elif op in ("rm_char", "count_char", "find_char", "add_char"): sc.append("%s %d %d" % (op, k, rng.choice([c, 7])))
        elif op == "count_cstr": sc.append("count_cstr %d %s" % (k, hexs(t[-rng.choice([1, 2, 9, 40]):])))
        elif op == "offsets": sc.append("offsets %d %s %d" % (k, hexs(t[-rng.choice([1, 2, 9, 40]):]), rng.choice([1, 6, 20])))
        elif op == "rep_cstr":
            d = rng.choice([1, 2, 9, 40]); sc.append("rep_cstr %d %s %s %s" % (k, hexs(t[-d:]), hexs(text(rng.choice([0, 1, 3, 33, 64] if d > 2 else [0, 1, 2]))), rng.choice([-1, 1, 2])))
        elif op == "rep_range":
            lo = rng.randrange(len(t) + 1); sc.append("rep_range %d %d %d %s" % (k, lo, min(lo + rng.choice([0, 1, 15, 16, 63, 300]), len(t)), hexs(text(rng.choice([0, 1, 16, 64, 255])))))
        elif op == "add_cstr": sc.append("add_cstr %d %s" % (k, hexs(text(rng.choice([1, 2, 31, 64])))))
        elif op == "mirror":
            h = text(rng.choice([16, 31, 64, 128])); p = bytearray(h + text(rng.randrange(2)) + h[::-1])
            if rng.random() < .5: p[rng.choice([0, -1, len(h) - 1, len(h) // 2])] = rng.choice(alpha)
            sc += ["copy_cstr %d %s" % (k, hexs(p)), "palindrome %d" % k]
        else: sc.append("%s %d" % (op, k))
    return sc + ["release 1", "release 2"]
def battery(rng, m):
    """every operation on texts of (about) one length; the decisive characters lie at the end or the beginning"""
    fill = lambda c, e: hexs(bytes([c]) * (m - len(e)) + e)
    pairs = [("lower 1", fill(98, b"Z")), ("lower 1", fill(90, b"z")), ("upper 1", fill(66, b"z")), ("rep_char 1 99 100", fill(98, b"c")), ("rm_char 1 99", fill(98, b"c")), ("rm_char 1 98", fill(98, b"c")),
             ("trim 1", fill(32, b"b ")), ("trim 1", fill(98, b" ")), ("count_char 1 99", fill(98, b"c")), ("find_char 1 99", fill(98, b"c")), ("reverse 1", fill(98, b"xyz")),
             ("palindrome 1", fill(98, b"c")), ("palindrome 1", fill(98, b"")), ("add_char 1 65", fill(98, b"")), ("add_cstr 1 " + hexs(b"end"), fill(98, b"a")), ("rep_cstr 1 %s %s -1" % (hexs(b"yz"), hexs(b"Q")), fill(98, b"xyz")),
             ("rep_range 1 %d %d %s" % (m - 2, m - 1, hexs(b"12345")), fill(98, b"xyz")), ("format 1 1 0 x 7", fill(98, b"q")), ("format 1 1 2 %s 7" % hexs(b"ab"), fill(98, b"q")), ("format 1 0 2 %s 7" % hexs(b"ab"), fill(98, b"q")),
             ("read 1 file " + hexs(b"short"), fill(98, b"q")), ("read 1 filename " + fill(99, b"r"), hexs(b"q")), ("cmp_cstr 1 " + fill(98, b"r"), fill(98, b"q")), ("count_cstr 1 " + hexs(b"bq"), fill(98, b"q")),
             ("offsets 1 %s 3" % hexs(b"bq"), fill(98, b"q")), ("empty 1", fill(32, b"")), ("empty 1", fill(32, b"b")), ("copy_cstr 1 " + hexs(b"short"), fill(98, b"q"))]
    rng.shuffle(pairs); sc = ["reset 90000", "new 1 0 " + hexs(b"ab")]
    for op, t in pairs[:16 if m > 600 else 99]: sc += ["copy_cstr 1 " + t, op]
    return sc + ["release 1"]
def each(o, a, b, y, rng):
    if o == 0: return ["add_cstr 1 " + y, "trim 1", "reverse 1"]
    if o == 1: return ["rep_char 1 %d %d" % (a, b), "lower 1"]
    if o == 2: return ["add_char 1 %d" % b, "rm_char 1 %d" % a, "upper 1"]
    if o == 3: return ["add_rep 1 %d 3" % b, "count_cstr 1 " + hexs(bytes([b, b])), "offsets 1 %s 6" % y]
    if o == 4: return ["add_rep 1 %d 2" % b, "rep_cstr 1 %s %s -1" % (hexs(bytes([a, b])), y), "palindrome 1"]
    if o == 5: return ["format 1 0 %d %s 7" % (rng.randrange(5), hexs(bytes([a, b, a]))), "cmp_str 1 2"]
    if o == 6: return ["add_char 1 %d" % b, "add_char 1 %d" % a, "rep_range 1 1 2 " + hexs(bytes([a, b])), "cmp_cstr 1 " + hexs(bytes([a, a, b]))]
    return ["add_char 1 %d" % b, "trim 1", "empty 1", "find_char 1 %d" % b]
def combos(rng):
    """every pair of special characters, added in every way; files of all sizes and contents"""
    SP = b"\r\n\t\v\f 0aZz%\\\"'\x01\x1a\x7f\x80\xff"; out = []
    for a in SP:
        sc = ["reset", "new 1 0 " + hexs(b"ab"), "new 2 0 " + hexs(b"c")]
        for b in SP:
            x = hexs(bytes([a])); y = hexs(bytes([b]))
            sc += ["copy_cstr 1 " + x, "add_char 1 %d" % b, "add_rep 1 %d 2" % b, "copy_cstr 2 " + y, "add_str 1 2", "add_str 1 1"]
            for o in range(8): sc += [x for x in ["copy_cstr 1 " + x] if o] + each(o, a, b, y, rng)
        out.append(sc + ["release 1", "release 2"])
    for alpha in (b"ab\r\n", SP, bytes(range(1, 256))):
        sc = ["reset 8000", "new 1 0 " + hexs(b"ab")]
        for m in sorted(set(max(0, x + d) for x in (1, 2, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096) for d in (-1, 0, 1))):
            sc.append("read 1 %s %s" % (rng.choice(["file", "filename"]), hexs(bytes(rng.choice(alpha) for _ in range(m)))))
            if rng.random() < .3: sc.append(rng.choice(["trim 1", "reverse 1", "copy_cstr 1 " + hexs(b"q")]))
        out.append(sc + ["release 1"])
    return out
def borders():
    """texts to look for that begin as they end, overlapping, touching and nearly there"""
    W = [b"a", b"aa", b"aaa", b"aaaa", b"ab", b"aba", b"abca", b"abab", b"ababa", b"abcab", b"aab", b"aabaa", b"abba", b"abcdeabc", b"a" * 9, b"abacabadabacaba", b"ab" * 8 + b"a", b"x" + b"y" * 31 + b"x", b"  ", b"a b a"]
    out = []
    for w in W:
        sc = ["reset", "new 1 0 " + hexs(b"q")]
        B = [b for b in range(len(w)) if w[:b] == w[len(w) - b:]]                    # 0 and the proper borders
        T = [w[:-1], w + w, w * 3, w[:-1] + w, w + w[:-1], w[1:] + w, b"z" + w + b"z" + w, w[:-1] + b"z" + w, w + b"z" + w[1:]]
        for b in B[1:]: T += [w + w[b:], w + w[b:] * 2, w + w[b:] * 3 + b"z", b"z" + w + w[b:] + w]
        for t in T:
            sc += ["copy_cstr 1 " + hexs(t), "count_cstr 1 " + hexs(w), "offsets 1 %s 1" % hexs(w), "offsets 1 %s 2" % hexs(w), "offsets 1 %s 9" % hexs(w), "rep_cstr 1 %s %s -1" % (hexs(w), hexs(b"Q"))]
            for r, n in ((b"", -1), (w + w, -1), (w[:-1] + b"Q", 1), (w[1:], 2), (b"longer than any", -1)): sc += ["copy_cstr 1 " + hexs(t), "rep_cstr 1 %s %s %d" % (hexs(w), hexs(r), n)]
        out.append(sc + ["release 1"])
    return out
def generate(rng, tier): return borders() + combos(rng) + [battery(rng, m) for m in [16, 32, 33, 64, 128, 255, 256, 257] + [1023, 1024, 1025, 1500, 4095, 4096, 4097, 5000] * 2 + ([8192, 70000] * 3 if tier == "thorough" else [])] + [large(rng) for _ in range(24 if tier == "quick" else 200)] + [bounded(rng) for _ in range(90 if tier == "quick" else 1500)] + [history(rng, rng.choice([30, 100])) for _ in range(250 if tier == "quick" else 5000)]
def generate_fault(rng, tier): return [history(rng, 80, True) for _ in range(60 if tier == "quick" else 800)]
def str_(**kw):
    d = dict(name="str", driver="drv_str.c", sources=["str/str.c"], trace="StrTrace", mc=[("MCStr", "MCStr")], mc_thorough=[("MCStr", "MCStrThorough")],
             generate=generate, ops=OPS, walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", walk_limit=dict(quick=18000, thorough=120000))
    d.update(kw); return Comp(**d)
