from .base import *
FILES = ["a.cfg", "b.cfg", "c d", "e", "a rather long name of a file.with.dots.cfg"]
KEYS = ["a", "b", "c", "a.b", "k", "longer key", "\xc3\xa9", "a", "b", "0", "1"]
def quote(rng, s):
    q = rng.choice("\"\"'"); o = ""
    for ch in s:
        if ch in ("\\", q): o += "\\" + ch
        elif ch == "\n" and rng.random() < .8: o += "\\n"
        elif ch == "\t" and rng.random() < .5: o += "\\t"
        elif rng.random() < .02 and ord(ch) > 31: o += "\\x%02x" % ord(ch)
        else: o += ch
    return q + o + q
def math_text(rng):
    n = lambda: rng.choice(["1", "2", "3", "iota", "IOTA", "enum", "ENUM", "0.5", "10", "(1+2)", "-1", "unknown"])
    e = n()
    for _ in range(rng.randrange(3)): e += rng.choice([" + ", "*", "-", "/", "^"]) + n()
    return "<math" + rng.choice([" ", "", "  "]) + e + rng.choice([">", ">", ">", ">", ">", ">", ">", ""])
def key(rng):
    r = rng.random()
    if r < .7: return rng.choice(KEYS)
    if r < .85: return rng.choice(["<enum>", "<ENUM>", "k<enum>", "<ENUM>-<enum>", "<enum><enum>", "n"])
    if r < .92: return rng.choice(["", "p", "pre "]) + math_text(rng) + rng.choice(["", "", "x", "long tail of the key"])
    return "".join(rng.choice("ab.\\\"'\t %") for _ in range(rng.randrange(0, 6)))
def number(rng):
    r = rng.random()
    if r < .4: return rng.choice(["0", "1", "-1", "+7", "42", "0x10", "0b101", "017", "1'000", "-0x7f", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "0xFFFFFFFFFFFFFFFF", "-2147483649", "00", "0x1'0"])
    if r < .75: return rng.choice(["0.5", "-.25", "1.", "1e3", "2.5e-1", "0x1.8p1", "1'0.5", "3.14159", "0.1", "1e30", "-1.5f", "123456.789", "0.0", "0.000001", "1e-7", "999999.999999", "3.14159265358979323846"])
    return rng.choice(["", "-"]) + str(rng.randrange(10 ** rng.randrange(1, 12))) + (rng.choice(["", "." + str(rng.randrange(10 ** rng.randrange(1, 8)))]))
def sep(rng): return rng.choice(["", "", "", " ", "\n", "\t", ", ", ":", " : ", "# note\n", "// x\n", "/* {\"a\" */", "\r\n", "\n\n"])
def value(rng, d, inc):
    r = rng.random()
    if r < .22 and d > 0: return "{" + body(rng, d - 1, inc) + sep(rng) + "}"
    if r < .42: return quote(rng, rng.choice(["", "x", "a b", "tab\t", "line\nbreak", "q\"q", "it's", "back\\slash", "\xc3\xa9t\xc3\xa9", "<FILE>", "{", "%s %n", "end\\", "a" * rng.choice([15, 16, 31, 63, 64, 127, 128, 255, 256, 257, 300])]) if rng.random() < .85 else "v=" + math_text(rng) + rng.choice(["", " u"]))
    if r < .62: return number(rng)
    if r < .70: return "c" + rng.choice(["", " ", "/**/"]) + "[" + sep(rng).join([" "] + [rng.choice(["0", "255", "16", "0x1f", "1", "7", "127", "128", "254", "0b11", "017", "256", "1.5"] + [str(rng.randrange(256))] * 4) + rng.choice([" ", ","]) for _ in range(rng.randrange(6))]) + "]"
    if r < .78: return "v[" + sep(rng).join([" "] + [rng.choice(["0", "-1", ".5", "2.25", "1e2", "0.1", "1'0", "-4.5", "-.75", "+2.5", "%s%d.%s" % (rng.choice(["", "-"]), rng.randrange(1000), rng.choice(["5", "25", "125", "0625"]))]) + rng.choice([" ", ","]) for _ in range(rng.randrange(6))]) + "]"
    return rng.choice(["true", "false", "null", "iota", "IOTA", "iota", "IOTA", "<FILE>", "<file>"])
def counting(rng, d):
    "enumerations and iotas before, inside and after sections of several depths"
    o = ""
    for i in range(rng.choice([0, 1, 2, 3, 4, 5, 8])):
        k = rng.choice(["<enum>", "<ENUM>", "a<enum>", "<ENUM>.<enum>", "g<ENUM>", "k%d" % i, "k%d" % i, "e%d <math enum>" % i, "m%d <math ENUM+iota>" % i])
        v = "{" + counting(rng, d - 1) + "}" if d > 0 and rng.random() < .35 else rng.choice(["iota", "iota", "IOTA", "1", '"<math iota>"', '"<math ENUM>"', "null"])
        o += sep(rng) + quote(rng, k) + sep(rng) + v + rng.choice([" ", ",", "\n"])
    return o
def body(rng, d, inc):
    if rng.random() < .12: return counting(rng, d)
    o = ""
    for _ in range(rng.choice([0, 1, 2, 3, 3, 5])):
        if inc and rng.random() < .1: o += sep(rng) + '"' + rng.choice(["<include>", "<INCLUDE>"]) + '"' + sep(rng) + quote(rng, rng.choice(FILES + ["missing", "."]))
        else: o += sep(rng) + quote(rng, key(rng)) + sep(rng) + value(rng, d, inc)
        o += rng.choice([" ", ",", "\n", ""])
    return o
def damage(rng, t):
    for _ in range(rng.choice([1, 1, 2, 4])):
        if not t: break
        i = rng.randrange(len(t)); r = rng.random()
        if r < .35: t = t[:i] + t[i + 1:]
        elif r < .5: t = t[:i]
        elif r < .6: t = t[:i] + t[i:i + rng.randrange(1, 9)] + t[i:]
        else: t = t[:i] + rng.choice(list("{}[]\"'\\<>/*#,:cv019.-+xbe tfni\n\xff\x01")) + t[i:]
    return t
MANY = "".join('"k%d" %s%d\n' % (i, "-" * (i % 3 == 0), i) for i in range(400))
FIXED = ["\n" * 700 + '"a" 1 "b" 2', "# c\n" * 300 + '"s" {' + "\n" * 300 + '"a" 1\n"b" 2\n}', MANY[:5900].rsplit("\n", 1)[0],
         '"a" {' * 12000, '"a" {' * 900 + "}" * 900 + '"b" 1', '"k<math ' + "(" * 12000 + '1>" 2', '"a" {' * 40 + "}" * 40, '"a" {' * 60, '"a" "' + "x" * 3000, "'a' '\\", '"a" c[', '"a" v[1', '"a" c[x]', '"a" v[-]', '"a" c[1 1 1 1 1 1]', '"a" "<math 1"', '"a" "<math>"', '"<math 1" 2', '"<math>" 2',
         '"a" /*', '"a" //', "\"a\" 'b' \"a\" 1 \"c\" 2", '"<include>" ""', '"<include>" x', '"a<include>" 1', "", " ", "\"", '"a"', '"a":', '"a" t', '"a" tru', '"a" trueish', '"a" <file', '"a" <', '"a" }', "}", '{"a" 1}',
         '"\\', '"a" 1.2.3', '"a" 0x', '"a" 08', '"a" +', '"a" -', '"a" .', '"a" 1e', '"a" [1]', '"a\\0b" 1', '"k<math 1000000*3>' + "z" * 40 + '" 1', '"<math 1.5>" 1 "<math 1.5>" 2', '"<enum>" 1 "0" 2 "<ENUM>" 3', '"a" "x<math 2+3>y<math 1>z"', '"a" "<math ' + "1+" * 100 + '1>"']
def clean(t): return t.replace("\0", "")
END = ' "zz" 1'
def words(rng, tier):
    "every word with one character dropped, doubled, replaced or in the other case, cut short, or running on"
    out = []
    for w in ["true", "false", "null", "iota", "IOTA", "<FILE>", "<file>"]:
        vs = {w}
        for k in range(len(w)): vs |= {w[:k] + w[k + 1:], w[:k] + w[k] + w[k:], w[:k] + w[k].swapcase() + w[k + 1:], w[:k] + "x" + w[k + 1:], w[:k] + chr(ord(w[k]) + 1) + w[k + 1:], w[:k] + " " + w[k:], w[:k]}
        vs |= {w + c for c in "x1_-.'\"{}<>[]"} | {w.upper(), w.capitalize(), w + w}
        for v in sorted(vs): out += ['"a" ' + v + END, '"s" { "a":' + v + '}' + END]
    for w in ["<include>", "<INCLUDE>", "<enum>", "<ENUM>", "<math 1>"]:
        vs = {w} | {w[:k] + w[k + 1:] for k in range(len(w))} | {w[:k] + w[k].swapcase() + w[k + 1:] for k in range(len(w))} | {w + "x", "x" + w, w + w, w + " ", " " + w}
        out += ['"%s" "a" "<enum>" iota "<ENUM>" IOTA' % v + END for v in sorted(vs)]
    return out
def markers(rng, tier):
    "keys of several markers, and the counters afterwards"
    P = ["<enum>", "<ENUM>", "k", "<math enum>", "<math ENUM+1>", "<enum", "enum>"]; out = []
    for a in P + [""]:
        for b in P + [""]:
            for c in P + [""]:
                if a + b + c and (tier != "quick" or rng.random() < .4): out.append('"x<enum>" IOTA "y<ENUM>" iota "%s%s%s" iota "s" { "%s%s" IOTA "<enum>" iota } "u<enum>" iota "w<ENUM>" IOTA' % (a, b, c, c, a) + END)
    for n in (2, 3, 4, 9, 17, 40):
        for m in ("<enum>", "<ENUM>"): out.append('"%s" 1 "%s" 2 "-%s" iota' % (m * n, "a".join([m] * n), m) + END)
    for n in (9, 10, 11, 12, 99, 100, 101, 130, 255, 256, 257, 260):
        for m, v in (("<enum>", "1"), ("<ENUM>", "1"), ("<enum>", "iota"), ("<ENUM>", "IOTA")):
            if n * (6 + len(m)) < 3000: out.append(('"%s"%s ' % (m, v)) * n + '"x%sy" "<math 2>" "s" { "%s" %s "x%s" "<math iota>" "y" "<math IOTA>" }' % (m, m, v, m) + END)
    return out
SEPS = [" ", ",", "\n", "\t", " , ", ",,", ":", "/*c*/", "/**/", "#c\n", "//c\n", "/*]*/", "#]\n", "\r\n", " /*a*/ /*b*/ ", "", "/* * / **/", "//\n//\n", "#\n", "/*\n*/,"]
def matrices(rng, tier):
    "colours and vectors of every number of elements with every separator at every place"
    out = []
    for k, E in (("c", ["11", "22", "33", "44", "55", "66"]), ("v", ["1.5", "-2.25", "3", "-4", "5.5", "6"])):
        for n in range(7):
            for sp in SEPS:
                for at in [None] + list(range(n + 1)):
                    parts = E[:n]; t = ""
                    for i in range(n + 1): t += (sp if at in (None, i) else " " if i else "") + (parts[i] if i < n else "")
                    if sp == "" and at is None and n > 1: continue
                    out.append('"a" ' + k + rng.choice(["", "", " ", "\n", "/*x*/", "#[\n"]) + "[" + t + "]" + END)
            for bad in ["x", "\"1\"", "v", "[", "1x", "}", "true", "--1", "1.2.3", "0x", ";", "1e", "'", "- 1", "+"]:
                if n: i = rng.randrange(n); out.append('"a" %s[%s]' % (k, " ".join(E[:i] + [bad] + E[i + 1:n])) + END)
        for t in ["", "[", "[1", "[1 2 3 4", "[1 2 3 4}", "(1 2)", "1 2", "[[1]]", "]", "[1]]", "{1}"]: out.append('"q" 3 "a" ' + k + t + END)
    for x in range(0, 256, 1 if tier != "quick" else 7): out.append('"a" c[%d %s 0x%x 0%o] "b" c[%d %d]' % (x, bin((x * 3) % 256), (x * 5) % 256, (x * 7) % 256, 255 - x, (x * 11) % 256) + END)
    return out
def nest(rng, tier):
    "counters, every kind of value and every kind of mistake at every depth, entries before and after the deeper section"
    out = []; V = ["1", "-2.5", '"s"', "true", "false", "null", "iota", "IOTA", "c[1 2 3 4]", "v[1 2 3 4]", "<FILE>", '""', "{}", '"<math iota+1>"', "0x1F", '{ "in" iota }']
    for d in (0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 17, 33):
        for v in V:
            t = '"v" %s "w" %s "<enum>" IOTA "e<ENUM>" iota' % (v, v)
            for i in range(d): t = '"i%d" IOTA "l" iota "<enum>" 1 "d" { %s } "j" IOTA "m" iota "e<enum>" 2 "g<ENUM>" 3' % (i, t) if d < 10 else '"d" { "l" iota %s "m" IOTA "e<enum>" 2 }' % t
            if len(t) < 1800: out.append(t + END)
        for bad in ["x", "{", "}", "[", '"k"', '"k" x', '"k" 1.2.3', '"k" "open', '"v" 1 "v" 2', "'v' c[", '"k" v[1', '"k" "\\', '"" 1', '"k" tru', "/* open", '"<include>" "none" "ok" 1', '"<include>" 1', '"k" <', "'", '"k" "a"x', '"k" {"a" 1', '"k" +', '"<math 1+>" 2', "}}", '"k" "<math (" "ok" 2', '"k" 08', '"k" 0x', '"k" 1e', "#", "//", "\\", '"k" 5}', '"k" {} }']:
            if d < 7 or d == 12:
                t = '"v" 1 "u" iota ' + bad
                for i in range(d): t = '"a%d" iota "d" { %s } "z" IOTA' % (i, t)
                out.append(t + END)
    return out
def pairs(rng, tier):
    "every kind of value followed by every kind of value, with every separator"
    V = ["1", "-2.5", '"s"', "'t'", "true", "false", "null", "iota", "IOTA", "c[1 2 3 4]", "v[.5]", "<FILE>", "{}", '{"x" 1}', '""', "0x1f", "017", "0b11", "1'0", "9e2"]; out = []
    for a in V:
        for b in V:
            for sp in rng.sample(SEPS, 2 if tier == "quick" else len(SEPS)): out.append('"a"%s%s%s\'b\'%s%s%s"c" 3' % (rng.choice(SEPS), a, sp, rng.choice(SEPS), b, sp) + END)
    return out
def texts(rng, tier):
    "keys and strings of every length and with every escape; sections of every size"
    out = []
    for n in [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000]:
        k = "".join(rng.choice("abcdef") for _ in range(n))
        out += ['"%s" 1 "%sx" 2 "%s" "%s" "s" { "%s" \'%s\' }' % (k, k, k[:-1] or "y", k, k, k) + END, '"a" "%s<math 1>" "b" "<math 2>%s" "c" "%s<math 1/2>%s" "%s<math 3>" 4' % (k, k, k[:n // 2], k, k) + END]
    for e in ["\\n", "\\t", "\\r", "\\a", "\\b", "\\v", "\\f", "\\\\", "\\'", '\\"', "\\x41", "\\u00e9", "\\U0001F600", "\\101", "\\?", "\n", "\t", "'", "%s", "{", "}", "#", "//", "/*", ":", ",", "."]:
        for f in ["%s", "a%s", "%sb", "a%sb%s"]:
            x = f.replace("%s", e); out.append('"%s" "%s" "k" { "%s" "%s%s" }' % (x, x, x, x, x) + END)
    for n in list(range(0, 34)) + [40, 63, 64, 65, 100, 128, 129, 200, 257]:
        o = list(range(n)); rng.shuffle(o); b = " ".join('"%d"%d' % (i, j) for i, j in enumerate(o))
        out += [b + END, '"s" { %s } ' % b + END]
        if n and n < 70: out += [b + ' "%d" 1' % rng.choice(o) + END, '"s" { %s "t" { %s } "0" 1 }' % (b, b) + END]
    return out
def includes(rng, tier):
    "files in files: counters, names, what is read before, inside and after"
    out = []
    for d in range(1, 8):
        for _ in range(3 if tier == "quick" else 12):
            sc = ["reset"]
            for i in range(d):
                nxt = '"<include>" "f%d"' % (i + 1) if i + 1 < d else rng.choice(['"x" <FILE>', '"<include>" "f0"', '"<include>" "none"', "", '"x" 1 x'])
                inc = rng.choice([nxt, '"sec" { "l" iota %s "n" <FILE> "m" iota "<enum>" 1 }' % nxt, nxt + " " + nxt, '"sec" { "s2" { %s } %s } "t" { %s }' % (nxt, nxt, nxt)])
                c = '"n" <FILE> "a" iota "g" IOTA "e<enum>" 1 "h<ENUM>" 2 %s "n2" <file> "b" iota "g2" IOTA "e<enum>" 3 "h<ENUM>" 4' % inc
                if rng.random() < .2: c += rng.choice([" x", ' "', " }", ' "n" 1', " {"])
                sc.append("file %s %s" % (hexs("f%d" % i), hexs(c)))
            for t in ['"g" IOTA "e<ENUM>" 1 "<include>" "f0" "n" <FILE> "g2" IOTA "e<ENUM>" 2', '"s" { "a" iota "<include>" "f0" "b" iota "<enum>" 1 } "c" iota', '"<include>" "f0" "<include>" "f0" "z" 1', '"s" { "<include>" "f0" } "t" { "<include>" "f0" } "u" <FILE>', '"<include>" "f%d" "<include>" "f0" "z" <FILE>' % (d - 1), '"f0" 1 "<include>" "f0" "z" 1']: sc.append("parse " + hexs(t))
            out.append(sc + ["load " + hexs("f%d" % i) for i in range(d)])
    return out
def numbers(rng, tier):
    "numbers of every form before every character that may follow"
    out = []; N = ["0", "7", "42", "0x1f", "0X1F", "0b101", "0B1", "017", "0.5", ".5", "5.", "1e3", "1E+2", "2.5e-1", "0x1.8p1", "1'000", "0x1'0", "1.5f", "1.5L", "10u", "10ull", "9223372036854775807", "00", "0.0", "1e0", "0x.8p0", "0b1'1", "999'999.5", "65535", "65536", "4294967295", "4294967296"]
    for n in N:
        for sg in ("", "-", "+", "--", "+-", "- "):
            for a in ["", " ", ",", "}", "\n", "#\n", "//\n", "/**/", '"y"2', ":", "]", "x", "."] if sg in ("", "-") else [" "]: out.append('"s" { "a" %s%s%s' % (sg, n, a) + (END + " }" + END if a != "}" else END))
    return out
def file_names():
    "files whose names differ by blanks, letter case or punctuation, included and loaded"
    ns = ["f", " f", "f ", "F", "f.cfg", "f .cfg", "%s", "f%n", "~", "-", "f'g", "\xc3\xa9", "f\\g", "#f", "<f>", "n" * 58, "n" * 57, "f\tg"]; lit = lambda n: '"' + n.replace("\\", "\\\\").replace("\t", "\\t") + '"'
    sc = ["reset"] + ["file %s %s" % (hexs(n), hexs('"k%d" %d "me" <FILE> ' % (i, i))) for i, n in enumerate(ns)]
    return [sc + ["load " + hexs(n) for n in ns] + ["parse " + hexs('"<include>" ' + lit(n)) for n in ns] + ["parse " + hexs("'<include>' " + lit(n) + ' "s" { "<include>" ' + lit(m) + " }") for n, m in zip(ns, ns[1:])]]
def battery(rng, tier):
    ts = []
    for f in (words, markers, matrices, nest, pairs, texts, numbers): ts += f(rng, tier)
    rng.shuffle(ts)
    fs = ["file %s %s" % (hexs(n), hexs('"in" iota "<enum>" IOTA')) for n in FILES[:2]]
    return [["reset"] + fs + ["parse " + hexs(t) for t in ts[i:i + 60]] for i in range(0, len(ts), 60)] + includes(rng, tier) + file_names()
def gen_text(rng, tier):
    out = [["reset"] + ["parse " + hexs(t) for t in FIXED]] + battery(rng, tier)
    for _ in range(60 if tier == "quick" else 1200):
        sc = ["reset"]
        for n in rng.sample(FILES, rng.randrange(len(FILES) + 1)):
            t = body(rng, 1, True); t = damage(rng, t) if rng.random() < .2 else t
            sc.append("file %s %s" % (hexs(n), hexs(clean(t.replace("\n", "\r\n") if rng.random() < .3 else t))))
        for _ in range(25):
            t = body(rng, 3, True)
            if rng.random() < .5: t = damage(rng, t)
            sc.append("parse " + hexs(clean(t)))
            if rng.random() < .15: sc.append("load " + hexs(rng.choice(FILES + ["missing"])))
            if rng.random() < .1: sc.append("free")
        out.append(sc)
    return out
NAMES = ["a", "b", "a.b", "c", ".", "a."]
def tree_text(rng, d):
    o = ""
    for n in rng.sample(NAMES, rng.randrange(1, 5)):
        o += '"%s": ' % n + (rng.choice(["{ %s }\n" % tree_text(rng, d - 1)]) if d > 0 and rng.random() < .6 else rng.choice(["1", "2.5", '"s"', '""', "true", "null", "c[1 2 3 4]", "v[1 2 .5 4]", "iota"])) + "\n"
    return o
def deep_text(rng, d):
    "sections in sections, with entries before and after the deeper one"
    o = "".join('"%s" %s ' % (n, rng.choice(["1", "2.5", '"s"', "true", "null", "c[1 2 3 4]", "v[1 2 .5 4]"])) for n in rng.sample(["x", "y", "z"], rng.randrange(3)))
    if d > 0: o += '"%s" {\n%s}\n' % (rng.choice(["a", "a", "b"]), deep_text(rng, d - 1))
    return o + "".join('"%s" %s ' % (n, rng.choice(["7", '"end"', "false"])) for n in rng.sample(["t", "u"], rng.randrange(3)))
def path(rng):
    if rng.random() < .12: return ".".join(rng.choice(["a", "a", "a", "b"]) for _ in range(rng.randrange(3, 14))) + rng.choice([".x", ".t", ".y", ""])
    k = rng.choice([1, 1, 2, 2, 3, 4]); return rng.choice(["", "", "", "", "", "", "", "", "."]) .join([""]) + ".".join(rng.choice(NAMES + ["zz"]).replace(".", "\\.") for _ in range(k)) + rng.choice([""] * 15 + [".", "..a"])
STR = ["", "x", "\"", "\\", "a\nb", "\t", "\r\n", "it's", "end\\", "\xc3\xa9", "%s%n%d", "<math 1+1>", "<FILE>", "\x7f\x01", "\xff", "# no", "/*", "x" * 700, "\\n", "\\x41", "???"]
def frac(rng): return rng.choice(["0/0", "1/0", "-1/0", "1/1", "-3/2", "1/10", "1/20", "123456789/3", "999999999/20", "-999999999/0", "%d/%d" % (rng.randrange(-10 ** 9 + 1, 10 ** 9), rng.randrange(21))])
def setting(rng, p):
    t = rng.choice(["int", "float", "bool", "str", "hstr", "color", "vec", "null"])
    v = {"int": lambda: str(rng.choice([0, -1, 5, 2**31, 2**63 - 1, -2**63, -10**18])), "float": lambda: frac(rng), "bool": lambda: str(rng.randrange(2)), "str": lambda: hexs(rng.choice(STR)), "hstr": lambda: hexs(rng.choice(STR)),
         "color": lambda: " ".join(str(rng.choice([0, 1, 127, 255])) for _ in range(4)), "vec": lambda: " ".join(rng.choice(["0/0", "1/1", "-5/3", "15000001/4", "1/20", "%d/%d" % (rng.randrange(-2**24, 2**24), rng.randrange(21))]) for _ in range(4)), "null": lambda: ""}[t]()
    return ("set %s %s %d %s" % (hexs(p), t, rng.random() < .6, v)).strip()
TYPES = [("n", "null"), ("i", "7"), ("f", "2.5"), ("t", "true"), ("s", '"s"'), ("e", '""'), ("l", '"' + "y" * 300 + '"'), ("c", "c[1 2 3 4]"), ("v", "v[1 2 .5 4]"), ("m", '{ "x" 1 "y" { "z" 2 } }'), ("o", "{}")]
def matrix():
    "every type of entry against every setter, with and without permission, twice, below a section as well"
    sets = ["int 5", "float 3/2", "bool 1", "bool 0", "str " + hexs("new"), "str x", "hstr " + hexs("z" * 260), "color 9 8 7 6", "vec 1/1 3/2 -5/4 0/0", "null"]
    flat = " ".join('"%s" %s' % x for x in TYPES); out = []
    for pre in ("", "deep.er."):
        t = flat if not pre else '"deep" { "er" { %s } }' % flat
        for o in (0, 1):
            for st in sets:
                sc = ["reset", "parse " + hexs(t)]; k, *v = st.split(" ")
                for n, _ in TYPES: sc += ["set %s %s %d %s" % (hexs(pre + n), k, o, " ".join(v)), "get " + hexs(pre + n), "get " + hexs(pre + n + ".x")]
                for n, _ in TYPES[::2]: sc += ["set %s %s" % (hexs(pre + n), "int 1 3"), "get " + hexs(pre + n), "set %s null 0" % hexs(pre + n)]
                out.append([x.strip() for x in sc])
    return out
def gen_path(rng, tier):
    out = matrix()
    for _ in range(80 if tier == "quick" else 1500):
        sc = ["reset", "parse " + hexs(tree_text(rng, 3) if rng.random() < .8 else deep_text(rng, rng.randrange(4, 14)))]
        for _ in range(60):
            p = path(rng); r = rng.random()
            sc.append(setting(rng, p) if r < .35 else "calc " + hexs(p) if r < .4 else "get " + hexs(p))
            if rng.random() < .02: sc += ["free", "parse " + hexs(tree_text(rng, 3))]
        out.append(sc)
    return out
def gen_write(rng, tier):
    out = []
    for _ in range(60 if tier == "quick" else 1200):
        sc = ["reset"]
        if rng.random() < .3: sc.append("file %s %s" % (hexs("old"), hexs(rng.choice(["# kept\n\"z\" 1\n", '"z" 1\n' + "".join('"zz%d" %d\n' % (i, i) for i in range(60))]))))
        for _ in range(4):
            r = rng.random(); t = tree_text(rng, 2) if r < .35 else deep_text(rng, rng.choice([4, 5, 6, 8, 12, 20])) if r < .5 else body(rng, 2, False)
            sc.append("parse " + hexs(clean(t)))
            for _ in range(8):
                if rng.random() < .6: sc.append(setting(rng, path(rng)))
                sc.append(rng.choice(["render", "render", "build %s %d" % (hexs(rng.choice(["old", "new", "n2"])), rng.randrange(2))]) if rng.random() < .85 else rng.choice(["buildlim %s %d" % (hexs("lim"), rng.choice([0, 1, rng.randrange(60), rng.randrange(300), 100000])), "builddir %d" % rng.randrange(2)]))
                if rng.random() < .1: sc.append("load " + hexs(rng.choice(["old", "new"])))
        out.append(sc)
    return out
SRC = ["cfg/cfg.c", "map/map.c", "variant/variant.c", "str/str.c", "lex/lex.c", "math/math_parser.c", "msg_sys/msg_sys.c"]
def make(name, mc, gen, ops, **kw):
    def f(**k2):
        d = dict(name=name, driver="drv_cfg.c", sources=SRC, trace="CfgTrace", mc=[(mc, mc)], generate=gen, ops=ops.split(), walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n")
        d.update(kw); d.update(k2); return Comp(**d)
    return f
text = make("cfgtext", "MCCfg", gen_text, "parse load free file", mc_thorough=[("MCCfg", "MCCfgThorough")], need=['"t":"vec"', '"t":"color"', '"t":"map"', '"ok":false'], walk_reset=["reset"])
paths = make("cfgpath", "MCCfgPath", gen_path, "parse free get set calc", need=['"got":["map"]', '"r":true', '"r":false'])
writing = make("cfgwrite", "MCCfgWrite", gen_write, "parse set render build buildlim builddir load file", need=['"over":true', '"over":false', '"op":"render"'])
