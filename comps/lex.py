from .base import *
NUM_STYLES = "c go chex gohex cbin gobin coct gooct cdec godec".split()
LONG = [31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 511, 1024, 1025, 2000]
def digits(rng, k, sep, n=None):
    al = dict(dec="0123456789", hex="0123456789abcdefABCDEF", oct="01234567", bin="01")[k]
    n = n or (rng.choice([1, 1, 2, 3, 5, 9, 20]) if rng.random() < .97 else rng.choice(LONG[:8]))
    out = ""
    for i in range(n):
        out += rng.choice(al)
        if sep and i + 1 < n and rng.random() < .15: out += sep
    return out
def literal(rng, style):
    sep = "'" if style == "c" else "_"
    if rng.random() < .4: sep = ""
    k = rng.choice(["dec", "dec", "hex", "oct", "bin", "flt", "flt", "hexflt"])
    case = lambda s: rng.choice([s, s.upper()])
    suf = rng.choice(["", "", "u", "l", "ul", "lu", "ll", "ull", "llu", "U", "L", "LLU"]) if style == "c" else ""
    fs = rng.choice(["", "", "f", "l", "F"]) if style == "c" else ""
    exp = lambda m: case(m) + rng.choice(["", "+", "-"]) + digits(rng, "dec", sep)
    if k == "dec": return rng.choice("123456789") + digits(rng, "dec", sep) + suf
    if k == "hex": return "0" + case("x") + digits(rng, "hex", sep) + suf
    if k == "bin": return "0" + case("b") + digits(rng, "bin", sep) + suf
    if k == "oct": return ("0" if style == "c" else "0" + case("o")) + digits(rng, "oct", sep) + suf
    if k == "flt":
        m = rng.choice([digits(rng, "dec", sep), digits(rng, "dec", sep) + ".", "." + digits(rng, "dec", sep), digits(rng, "dec", sep) + "." + digits(rng, "dec", sep)])
        return m + (exp("e") if "." not in m or rng.random() < .5 else "") + fs
    m = rng.choice([digits(rng, "hex", sep), digits(rng, "hex", sep) + "." + digits(rng, "hex", sep), digits(rng, "hex", sep) + "."])
    return "0" + case("x") + m + exp("p") + fs
FOLLOW = ["", "", " ", ";", "+1", "-2", "-x", ")", "..", "'", "_", "e", ".5", "*3", "\n", "\x80", "g", "u", "/2"]
def mutate(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1); c = rng.choice("00179aAfFeE..+-''__uUlLxXbBopPg;")
        r = rng.random()
        if r < .5: s.insert(i, c)
        elif s and r < .8: s[i % len(s)] = c
        elif s: del s[i % len(s)]
    return "".join(s)
def gen_num(rng, tier):
    out = []
    for _ in range(120 if tier == "quick" else 2500):
        sc = ["reset"]
        for _ in range(80):
            style = rng.choice(["c", "go"]); t = literal(rng, style)
            if rng.random() < .5: t = mutate(rng, t)
            t += rng.choice(FOLLOW)
            f = style if rng.random() < .7 else rng.choice(NUM_STYLES)
            if f in ("cdec", "godec") and not (t and (t[0].isdigit() or t[0] == ".")): f = "c"
            sc.append("num %s %s" % (f, hexs(t)))
            if rng.random() < .2: sc.append("ident " + hexs(rng.choice(["", "a", "_x9 y", "9a", "Ab\xc3\xa9z-", "x.y", " a", "\xff", "q\xfe\xff"]) + rng.choice(FOLLOW)))
            if rng.random() < .1:
                n = rng.choice(["12", "0x1F", "7.5"]); sc += ["num c " + hexs(n + "-" + n), "cursor %d" % (len(n) + 1), "num c", "num go"]
        out.append(sc)
    return out
def text(rng, al, n): return "".join(rng.choice(al) for _ in range(n))
def long_skip(rng):
    "one long construct: what is decisive comes late, or there is a lot of it"
    n = rng.choice(LONG); late = lambda c, *ends: (c * (n // len(c) + 1))[:n] + rng.choice(ends)
    op = rng.choice("cskip clex cclear bskip blex bclear skipquote mskip mlex skip skip while until whilerunes fixnl ident".split())
    if op in ("cskip", "clex", "cclear"): return "%s %s" % (op, hexs("//" + late("a ", "\n", "\\\nb\nc", "\\\nb\\\nc\nd", "")))
    if op in ("bskip", "blex", "bclear"): k = rng.choice(["*/", "-->"]); return "%s %s %s" % (op, hexs(k), hexs("/*" + late(rng.choice(["a", "\n", "a\n", "*", "-"]), k, k + "z", "", k[:-1])))
    if op == "skipquote": return "skipquote 92 " + hexs('"' + late(rng.choice(["a", "\\\\", "\\a"]), '"', '\\""', '', '"x') )
    if op == "mskip": return "mskip %s 92 %s" % (hexs('"""'), hexs(late(rng.choice(["a", '"a', "\\\\", "\n"]), '"""', '\\""""', '""', '"""x')))
    if op == "mlex": return "mlex %s %s" % (hexs('"""'), hexs('"""' + late(rng.choice(["a", '""a', "\n", "a\n"]), '"""', '""', '"""x')))
    if op in ("skip", "while"): return "%s %s" % (op, rng.choice(["ws " + hexs(late(rng.choice(["\n", " ", " \n", "\t\v\f\r"]), "z", "", "\n")), "id " + hexs(late("ab_9", " ", "")), "dec " + hexs(late("0123456789", "a", ""))]))
    if op == "until": return "until 59 " + hexs(late("ab\n", ";", ";;", ""))
    if op == "whilerunes": return "whilerunes wide " + hexs(late(rng.choice(["\u00e9", "\u4e2d", "\U0001f600", "a"]), ";", "", "\u00e9;").encode())
    if op == "fixnl": return "fixnl %d %s" % (rng.randrange(2), hexs(late(rng.choice(["\r", "\r\n", "a\t", "\r\r\n", "\ta\r"]), "", "\r", "\r\n", "\t")))
    return "ident " + hexs(late("ab_9", "-", "", "\x80"))
def gen_skip(rng, tier):
    out = []
    toks = ["*/", "*", "-->", "]]", "end"]
    for _ in range(150 if tier == "quick" else 3000):
        sc = ["reset"]
        for _ in range(40):
            n = rng.choice([0, 1, 2, 5, 12, 30, 60])
            if rng.random() < .06: sc.append(long_skip(rng)); continue
            op = pick(rng, (2, "cskip"), (2, "clex"), (2, "cclear"), (2, "bskip"), (2, "blex"), (2, "bclear"), (2, "skipquote"), (2, "mskip"), (2, "mlex"),
                      (2, "skip"), (1, "skipline"), (1, "while"), (1, "until"), (1, "whilerunes"), (1, "fixnl"), (2, "walk"), (1, "ident"))
            if op in ("cskip", "clex", "cclear"): sc.append("%s %s" % (op, hexs(text(rng, "//ab \\\n\t" if rng.random() < .6 else "ab \n", n))))
            elif op in ("bskip", "blex", "bclear"):
                k = rng.choice(toks); t = text(rng, "ab\n*/-]>" + k, n)
                if rng.random() < .6: t += k + text(rng, "ab\n", 3)
                if t[:1] == "\n": t = "/" + t
                sc.append("%s %s %s" % (op, hexs(k), hexs(t)))
            elif op == "skipquote":
                q = rng.choice("\"'`"); esc = rng.choice(["92", "92", str(ord(q)), "0", "63"])
                t = q + text(rng, "ab\\\n?" + q, n) + rng.choice(["", q, "\\", q + "x", "\\" + q])
                sc.append("skipquote %s %s" % (esc, hexs(t)))
            elif op == "mskip": q = rng.choice(["'''", '"""', "``", "q"]); sc.append("mskip %s %d %s" % (hexs(q), rng.choice([92, 63]), hexs(text(rng, "ab\\\n" + q, n) + rng.choice(["", q, "\\" + q, "\\"]))))
            elif op == "mlex": q = rng.choice(["'''", '"""', "``", "q"]); sc.append("mlex %s %s" % (hexs(q), hexs(rng.choice(["", q, q]) + text(rng, "ab\n\n" + q[0], n) + rng.choice(["", q, q[1:]]))))
            elif op in ("skip", "skipline", "while"): sc.append("%s %s %s" % (op, rng.choice("alpha id dec oct hex bin ws".split()), hexs(text(rng, rng.choice([" \t\n\r\v\f", "09 7f\n", "ab_9 \n\x80\xff"]), n) + rng.choice(["", "z;"]))))
            elif op == "until": sc.append("until %d %s" % (rng.choice([10, 59, 0, 97]), hexs(text(rng, "ab;\n", n))))
            elif op == "whilerunes": sc.append("whilerunes %s %s" % (rng.choice(["id", "wide", "solid", "far"]), hexs("".join((rng.choice(["a", "_", "\u00e9", "\u4e2d", "\U0001f600", ";"]) if rng.random() < .8 else chr(rng.choice(EDGE + ODD))) for _ in range(n)).encode() + rng.choice([b"", b"", b"\xc3", b"\x80", b"\xe4\xb8", b"\xff"]))))
            elif op == "fixnl": sc.append("fixnl %d %s" % (rng.randrange(2), hexs(text(rng, "a\r\n\t", n))))
            elif op == "ident": sc.append("ident " + hexs(text(rng, "ab_19-\x80", n)))
            else:                     # a small program: white space, comments, words in turn
                t, ops = "", []
                for _ in range(rng.choice([3, 8])):
                    k = rng.randrange(6)
                    if k == 0: t += text(rng, " \n\t", 4); ops.append("skip ws")
                    elif k == 1: t += "// it's" + rng.choice(["", "\\\n x", " \t"]) + "\n"; ops += [rng.choice(["cskip", "clex"]), "skip ws"]
                    elif k == 2: t += "/* a" + text(rng, "\n*b", 4) + " */"; ops.append("%s x2a2f" % rng.choice(["bskip", "blex"]))
                    elif k == 3: t += "word_%d " % rng.randrange(9); ops += ["ident", "skip ws"]
                    elif k == 4: t += "1'000.5e-3f;"; ops += ["num c", "until 59"]
                    else: t += '"q\\"uo"'; ops += ["skipquote 92"]
                    if rng.random() < .15: ops.append("cursor %d" % rng.randrange(len(t) + 1))
                ops[0:0] = []
                sc.append("skip ws " + hexs(t)); sc += ops
        out.append(sc)
    return out
def gen_str(rng, tier):
    out = []
    def esc():
        return rng.choice(["\\" + rng.choice("abrtvnNfexXuU01279\\\"'`?qz\n"), "\\x%x" % rng.randrange(1, 300), "\\x%x" % rng.choice([0xff, 0xd7ff, 0xe000, 0x10ffff, 0x110000, 0xfffffff, 0x1000000041]),
            "\\%o" % rng.randrange(1, 256), "\\%03o" % rng.randrange(1, 256), "\\%03o%d" % (rng.randrange(1, 256), rng.randrange(10)), "\\u%04x" % rng.choice([0x24, 0x40, 0x41, 0xa0, 0xe9, 0x7ff, 0x800, 0x4e2d, 0xd800, 0xdfff, 0xe000, 0xffff, rng.randrange(0xa0, 0x10000)]),
            "\\U%08X" % rng.choice([0x1f600, 0x10ffff, 0x110000, 0xffffffff, 0x80000041, 0xa0, 0x60, 0xd900]), "\\u%x" % rng.randrange(0x1000), "\\U%06x" % rng.randrange(0xa0, 0x10ffff), "\\8", "\\x", "\\x4", "\\x41g", "\\xE9"])
    kinds = ["\\" + c for c in "abrtvnNfe\\\"'`?q08"] + ["\\x41", "\\101", "\\u00e9", "\\U0001F600", "a", "\n", "7"]      # every pair of ways to write a character
    for st in ("c", "go"): out.append(["reset"] + ["str %s %s" % (st, hexs('"' + a + b + '"')) for a in kinds for b in kinds])
    for n in LONG[:-1] + ([2000, 5000] if tier == "thorough" else []):
        out.append(["reset"])
        for e in ("\\n", "\\x41", "\\u4e2d", "\\101", "\\\\", "", "\\"): out[-1].append("str %s %s" % (rng.choice(["c", "go"]), hexs('"' + rng.choice(["a", "\\\\", "\\t"]) * n + e + rng.choice(["b", ""]) + '"')))
        out[-1].append("str go " + hexs("`" + "\\" * n + "`"))
    for _ in range(150 if tier == "quick" else 3000):
        sc = ["reset"]
        for _ in range(50):
            q = rng.choice("\"\"''`"); t = q
            for _ in range(rng.choice([0, 1, 2, 4, 8])): t += esc() if rng.random() < .55 else rng.choice(["a", "Z9", " ", "\n", "\t", "\"", "'", "`", "\u00e9".encode().decode("latin-1"), "\x80", "//", "0", "f7"])
            t += rng.choice(["", q, q, q, q + "x", q + q, "\\", "\\" + q])
            sc.append("str %s %s" % (rng.choice(["c", "go"]), hexs(t)))
            if rng.random() < .3: sc.append("esc %s %s" % (rng.choice(["hex", "oct", "u", "U"]), hexs(esc()[2:] + rng.choice(["", "g", "0", "FF", "8"]))))
            if rng.random() < .1: sc += ["str c " + hexs('"ab\\n""c\\x41"\'q\''), "str c", "str c", "str c"]
        out.append(sc)
    return out
def enc(r): return chr(r).encode("utf-8", "surrogatepass")
ODD = [0xa0, 0xad, 0xff, 0x100, 0x17f, 0x200b, 0x2028, 0x20ac, 0xfeff, 0xfffd, 0xfffe, 0xff41, 0x1fffd, 0x1f600, 0xe0001]
EDGE = [1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]
def gen_utf(rng, tier):
    out = [["reset"] + ["classify %d" % c for c in range(256)]]
    out.append(["reset"] + ["findrune %d %s" % (c, hexs("b" * (m - 1) + "a")) for m in LONG for c in (97, 98, 99)])
    out.append(["reset", "runeclass 0 255", "runeclass -300 40", "runeclass 55200 57400", "runeclass 1113900 1114300"] + ["runeclass %d %d" % (a, a + 200) for a in (rng.randrange(0x110000) for _ in range(20))])
    step = 64
    if tier == "thorough": starts = list(range(0, 0x110000, step))
    else: starts = sorted({(e // step) * step for e in EDGE} | {(e // step) * step + step for e in EDGE if e < 0x10ffc0} | {rng.randrange(0x110000 // step) * step for _ in range(300)})
    starts = [s for s in starts if not 0xd800 <= s < 0xe000]
    for i in range(0, len(starts), 100): out.append(["reset"] + ["encrange %d %d" % (max(s, 1), min(s + step - 1, 0x10ffff)) for s in starts[i:i + 100]])
    for _ in range(100 if tier == "quick" else 1500):
        sc = ["reset"]
        r = lambda: rng.choice(EDGE + ODD) if rng.random() < .4 else rng.choice([rng.randrange(1, 128), rng.randrange(128, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x110000)])
        for _ in range(40):
            k = rng.randrange(9)
            bad = lambda: rng.choice([b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", enc(r())[:-1] or b"\xc3", b"\xf0\x9f\x98", b"\xe4\xb8A", b"\xc3A", b"\xf0\x9f\x98A"])
            if k == 0: sc.append("enc %d" % rng.choice([r(), r(), r(), 0, -1, -2, -128, 0x110000, 0x7fffffff, -0x80000000, 0xd800]))
            elif k == 1: sc.append("encin %d %d" % (r(), rng.randrange(6)))
            elif k in (2, 3):
                t = b"".join(enc(r()) for _ in range(rng.choice([0, 1, 3, 10]) if rng.random() < .97 else rng.choice(LONG)))
                if rng.random() < .4: t += bad() + rng.choice([b"", b"ab"])
                sc.append("runes %s %s" % (rng.choice(["cstr", "str", "file"]), hexs(t)))
            elif k == 4:
                t = enc(r()) if rng.random() < .5 else bad(); t += rng.choice([b"", b"x", b"\x80"])
                sc.append("dec %d %s" % (rng.randrange(1, len(t) + 1), hexs(t)))
            elif k == 5:
                m = 3 if rng.random() < .9 else rng.choice([66, 130]); t = b"".join(enc(r()) for _ in range(m)) + rng.choice([b"", bad()]); sc.append("next " + hexs(t)); sc += ["next"] * (m + 1)
            elif k == 6: t = text(rng, rng.choice(["abc", "ab\x01"]), rng.randrange(5)); sc.append("checkis %d %d %d %s" % (rng.randrange(6), rng.choice([97, 98, 0, 1]), rng.randrange(len(t) + 2), hexs(t)))
            elif k == 7 and rng.random() < .3: m = rng.choice(LONG); sc.append("findrune %d %s" % (rng.choice([97, 98, 233]), hexs("b" * (m - 1) + rng.choice(["a", "\xe9"]))))
            elif k == 7: sc.append("findrune %d %s" % (rng.choice([97, 98, 100, 233]), hexs(text(rng, "abc", rng.randrange(5)) + rng.choice(["", "\xe9"]))))
            else: sc.append("enc %d" % r())
        out.append(sc)
    return out
NUMERALS = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
def to_base(n, b, num): 
    s = ""
    while True:
        s = num[n % b] + s; n //= b
        if n == 0: return s
def gen_conv(rng, tier):
    out = []
    val = lambda: rng.choice([0, 1, 7, 8, 9, 255, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, rng.randrange(2**16), rng.randrange(2**32), rng.randrange(2**64), rng.randrange(2**48), 1 << rng.randrange(64), 2**64, 2**64 + rng.randrange(2**40), 10**19])
    for _ in range(120 if tier == "quick" else 2000):
        sc = ["reset"]
        for _ in range(50):
            v = val(); k = rng.randrange(10)
            if k < 5 and rng.random() < .15:
                z = "0" * rng.choice([1, 8, 16, 20, 24, 30, 62, 64, 70]); sc.append("toint %s %s" % (rng.choice(["c", "go"]), hexs(rng.choice(["0x%s%x" % (z, v), "0b" + z + bin(v)[2:], "0%s%o" % (z, v), "0X%s%X" % (z, v), "0B" + z + bin(v)[2:]]))))
            elif k < 5:
                b = rng.choice(["%d" % v, "0x%x" % v, "0X%X" % v, "0b" + bin(v)[2:], "0B" + bin(v)[2:], "0%o" % v, "0o%o" % v, "0O%o" % v])
                sc.append("toint %s %s" % (rng.choice(["c", "go"]), hexs(b + rng.choice(["", "", "u", "ul", "LL", ";", " 1", ".5"]))))
            elif k < 9:
                b = rng.randrange(2, 37); num = rng.choice([NUMERALS[:b], NUMERALS, "".join(rng.sample(NUMERALS, b)), "9876543210zyxwvutsrqponmlkjihgfedcba"])
                if len(num) < b: num = NUMERALS
                s = rng.choice(["", "", "-"]) + to_base(v, b, num)
                if rng.random() < .15: s = mutate(rng, s)
                sc.append("tobase %s %d %s %s" % (rng.choice(["cstr", "runes"]), b, hexs(num), hexs(s)))
            else:
                i, f = rng.randrange(1000), rng.choice(["", ".", ".5", ".25", ".125", ".001", ".999", ".1"])
                sc.append("tofloat " + hexs(rng.choice(["%d%s" % (i, f), "%d.%de%d" % (i % 50, rng.randrange(10), rng.randrange(3)), ".%d" % rng.randrange(100), "0x%x.%xp%d" % (i, rng.randrange(16), rng.randrange(4)), "0x%Xp+%d" % (i, rng.randrange(4)), "%de2" % (i % 90)])))
        out.append(sc)
    return out
def mk(name, gen, mc, ops, quick=None, mc_thorough=None):
    def f(**kw):
        d = dict(name=name, driver="drv_lex.c", sources=["lex/lex.c", "str/str.c"], trace="LexTrace", mc=mc, mc_thorough=mc_thorough, generate=gen, ops=ops.split(), walk_reset=["reset"],
                 trace_cfg="INVARIANT TypeOK\n", walk_limit=dict(quick=quick, thorough=400000))
        d.update(kw); return Comp(**d)
    return f
utf = mk("lexutf", gen_utf, [("MCUtf8", "MCUtf8")], "enc encin encrange runes next dec classify runeclass checkis findrune", mc_thorough=[("MCUtf8", "MCUtf8Thorough")])
skip = mk("lexskip", gen_skip, [("MCLexText", "MCLexComment"), ("MCLexText", "MCLexQuote"), ("MCLexText", "MCLexScan"), ("MCLexText", "MCLexNewline")], "cskip clex cclear bskip blex bclear skipquote mskip mlex skip skipline while until whilerunes fixnl ident cursor", quick=80000)
quoted = mk("lexstr", gen_str, [("MCLexText", "MCLexStr")], "str esc", quick=60000)
num = mk("lexnum", gen_num, [("MCLexNum", "MCLexNum")], "num ident cursor", quick=60000, mc_thorough=[("MCLexNum", "MCLexNumThorough")])
conv = mk("lexconv", gen_conv, [("MCLexConv", "MCLexConv")], "toint tobase tofloat", quick=60000)
