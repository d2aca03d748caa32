from .base import *
NAMES = ["x", "y", "rate", "f", "g", "half2", "A1", "n" * 63]
FN = ["dbl", "half", "inc", "sq", "id"]
DEF = ["e", "pi", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "ln", "log", "floor", "ceil", "round", "fraction", "radians", "degrees"]
def num(rng):
    r = rng.random()
    if r < .5: return str(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 100, 1000, rng.randrange(10000)]))
    if r < .75: return rng.choice(["0.5", ".5", "1.25", "3.", "0.0", "2.50", "10.125", "00.5", "007", "6.75", ".125000"])
    if r < .85: return rng.choice(["0.1", "3.14159", "123456789012", "999999999", "0.333"])
    return rng.choice(["0" * rng.choice([5, 60, 61, 62, 63, 64, 65, 100, 300]) + "7", "2." + "0" * rng.choice([5, 60, 61, 62, 63, 64, 200]), "1." + "5" * rng.choice([3, 62, 80]), "1" + "0" * 70])
def expr(rng, names, fns, d):
    ws = lambda: rng.choice(["", "", "", " ", "  ", "\t", "\n", "\r\n "])
    def e(d):
        k = rng.randrange(10)
        if d <= 0 or k < 3: return num(rng) if rng.random() < .6 or not names else rng.choice(names)
        if k < 7: return e(d - 1) + ws() + rng.choice("+-*/^+-*") + ws() + e(d - 1)
        if k == 7: return rng.choice(["-", "+", "--", "-+", "- "]) + e(d - 1)
        if k == 8:
            l, r = rng.choice(["()", "[]"]); return l + ws() + e(d - 1) + ws() + r
        if not fns: return e(d - 1)
        f = rng.choice(fns)
        return rng.choice([f + " " + e(d - 1), f + "(" + e(d - 1) + ")", f + ws() + "[" + e(d - 1) + "]", f + " " + rng.choice(fns) + " " + num(rng), f + "-" + num(rng)])
    return ws() + e(d) + ws()
def gen_math(rng, tier):
    out = []
    for _ in range(80 if tier == "quick" else 1500):
        sc = ["reset"]; v, f = [], []
        for n in rng.sample(NAMES, rng.randrange(1, 8)):
            if rng.random() < .5: sc.append("bind %s - %d %d" % (hexs(n), rng.choice([0, 1, -1, 2, 3, -8, 10, 255]), rng.randrange(4))); v.append(n)
            else: sc.append("bind %s %s 0 0" % (hexs(n), rng.choice(FN))); f.append(n)
        for _ in range(40):
            m = pick(rng, (7, "own"), (2, "default"), (1, "none"))
            if m == "default": s = expr(rng, DEF[:2], DEF[2:], rng.randrange(4))
            else: s = expr(rng, v + (["unknown", "x", "m" * 64, "q" * 65, "z" * 200] if rng.random() < .15 else []), f, rng.randrange(5))
            if rng.random() < .1 and m == "default": s = rng.choice(["pi", "e", "sin 0", "cos(0)", "ln 1", "log 1000", "log[10]", "log 1", "arccos 1", "degrees 0", "-round(-2.5)", "round 2.5", "round -0.5", "floor -0.5", "ceil(-0.5)", "fraction -1.25", "fraction(2.75)"])
            while rng.random() < .25 and s:
                i = rng.randrange(len(s)); r = rng.random()
                s = s[:i] + s[i + 1:] if r < .5 else s[:i] + rng.choice("()[]+-*/^ 12x_%") + s[i:]
            if rng.random() < .03: s = rng.choice(["", " ", ")", "1 2", "2x", "1.2.3", "1..", "(1", "[1)", "x(3)", "1e5", "0x10", "2^", "*3", "1+", "()", "\xff", "1\xe9", "(" * 50 + "1" + ")" * 50, "-" * 80 + "1", "(" * 5000, "[" * 3000 + "1", "-" * 60000 + "1", "+" * 60000, "f" + " f" * 20000, "id(" * 9000, "1" + "+1" * 200])
            if "." in s and any(t == "." for t in __import__("re").findall(r"[0-9A-Za-z.]+", s)): continue
            sc.append("eval %s %s" % (m, hexs(s)))
            if rng.random() < .05 and (v or f):
                n = rng.choice(v + f); sc.append("unbind " + hexs(n)); (v if n in v else f).remove(n)
        out.append(sc)
    sc = ["reset", "bind %s - 3 1" % hexs("x"), "bind %s dbl 0 0" % hexs("f"), "bind %s half 0 0" % hexs("g")]
    for u in ["+1", "-1", "+(1)", "-[2]", "+-1", "- -3", "+f(1)", "-g[1]", "+f 1", "+x", "-(x)", "+2*3", "-4/2", "+2^2", "+(1+(2-3*1))", " + 1 ", "+0.5", "-[(2)]", "+-+-1", "+f(g(f[1]))", "-(1)-(1)", "+1.25", "+007", "+(((1)))"]:
        for n in rng.sample([300, 400, 500, 511, 512, 513, 900, 998, 999, 1000, 1001, 1024, 1999, 2000, 2500, 4000, 9000], 4 if tier == "quick" else 17): sc.append("sum %s %s %s %d" % (rng.choice(["own"] if any(c in u for c in "fgx") else ["own", "default", "none"]), hexs(rng.choice(["1", "0", "(2)", "-3", "100"])), hexs(u), n))
    return out + [sc] + ladders(rng, tier)
def wrap(rng, s, n, pad=""):
    for _ in range(n):
        l, r = rng.choice(["()", "[]"]); s = l + pad + s + r
    return s
def ladders(rng, tier):
    """every run of operators, at every depth, with every way of closing brackets wrongly; chains of every length"""
    ev = []; bind = ["bind %s - 3 1" % hexs("x"), "bind %s dbl 0 0" % hexs("f"), "bind %s half 0 0" % hexs("g")]
    deep = (0, 1, 2, 3, 4, 5, 7, 9, 16, 17, 33, 65, 130, 260)
    for a in "+-*/^":
        for b in "+-*/^":
            for n in deep: ev.append(wrap(rng, rng.choice(["64%s4%s2", "64 %s 4 %s 2", "x%s2%sx", "f 8%s2%s4", "8%s(2)%s[1]", "16%s-2%s1", "8%s2%sf 1"]) % (a, b), n))
            for c in "+-*/^":
                for n in ((0, 2, 3, 5) if tier == "quick" else deep): ev.append(wrap(rng, rng.choice(["64%s4%s2%s1", "16%s2%s-1%s2", "x%s2%sf 1%s2", "32%s(2%s1)%s2", "4%s(1%s(2%s1))", "((4%s2)%s1)%s2"]) % (a, b, c), n))
    for o in ["+", "-", "*", "/", "^", "+-", "-+", "*/", "/*", "-/", "^*", "+^", "/-"]:
        for k in (2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100, 200):
            t = [rng.choice(["1", "2", "1", ".5"]) if k < 20 else "1" for _ in range(k)]
            s = t[0]
            for i in range(1, k): s += o[i % len(o)] + t[i]
            ev.append(wrap(rng, s, rng.choice([0, 0, 1, 2, 4])))
    for n in deep[1:]:
        for _ in range(14 if n < 20 else 4):   # one bracket of the wrong kind, missing, doubled or empty
            s = list(wrap(rng, rng.choice(["1", "1+2", "x", "f(1)", "f[1]", "2^[3]", "-1", ""]), n))
            b = [i for i, c in enumerate(s) if c in "()[]"]; i = rng.choice(b); k = rng.randrange(5)
            if k < 2: s[i] = {"(": "[", "[": "(", ")": "]", "]": ")"}[s[i]]
            elif k == 2: s[i] = ""
            elif k == 3: s[i] *= 2
            ev.append("".join(s))
        for u in ("-", "+", "--", "-+", "- -"): ev.append(wrap(rng, "2", n, u)); ev.append(u * n + "2^2"); ev.append("f " * n + "1"); ev.append(wrap(rng, "1", n, "f")); ev.append(wrap(rng, "g 1", min(n, 9), "f"))
    for a in "()[]": # every small arrangement of brackets around a number
        for b in "()[]":
            for c in "()[]":
                for d in "()[]": ev += [a + b + "1" + c + d, a + "1" + b + "+" + c + "2" + d, "f" + a + "2" + b + "^" + c + "2" + d]
    rng.shuffle(ev)
    return [["reset"] + bind + ["eval own " + hexs(s) for s in ev[i:i + 60] if len(s) < 880] for i in range(0, len(ev), 60)]
def math_(**kw):
    d = dict(name="math", driver="drv_math.c", sources=["math/math_parser.c"], trace="MathTrace", mc=[("MCMath", "MCMath")], mc_thorough=[("MCMath", "MCMathThorough")],
             generate=gen_math, ops="eval bind unbind".split(), walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", need=['"k":"err"', '"call":true', '"mode":"default"'])
    d.update(kw); return Comp(**d)
