from .base import *
COL = ["", "\x1b[31m", "\x1b[36m"]
def txt(rng, n=None): return "".join(rng.choice("ab c%d\n\"\\\xc3\xa9*-") for _ in range(rng.choice([0, 1, 5, 20, 80, 500]) if n is None else n))
STANDS = [v for k in (4, 7, 8, 10, 15, 16, 20, 24, 31, 32, 48, 63) for v in (2**k - 2, 2**k - 1, 2**k)] + [9, 99, 999, 9999, 99999, 999999, -2]
def gen_sys(rng, tier):
    out = []
    for _ in range(60 if tier == "quick" else 900):
        sc = ["reset"]
        for _ in range(40):
            if rng.random() < .2: sc.append("from %d %d" % (rng.randrange(1, 3), rng.choice(STANDS)))
            f = rng.choice(["null", hexs("f.c"), hexs("dir/%s file.h"), hexs("a" * 300)]); n = lambda: rng.choice([-1, 0, 1, 9, 10, 80, 12345, 2**31, 2**32 - 2])
            sc.append("msg %d %d %s %d %d %s %s %s %d" % (rng.randrange(1, 3), rng.randrange(3), f, n(), n(), hexs(rng.choice(["error", "warning", "", "%d"])), hexs(rng.choice(COL)), hexs(txt(rng)), rng.choice([0, 0, 1, 2])))
        out.append(sc)
    for c in (1, 2): # each number a counter may stand at, and many messages in a row
        sc = ["reset"]
        for v in STANDS: sc += ["from %d %d" % (c, v)] + ["msg 1 %d null -1 -1 x65 x x 0" % c] * 3
        out += [sc, ["reset"] + ["msg %d %d null -1 -1 x65 x x 0" % (c, c)] * 600]
    return out
def msgsys(**kw):
    d = dict(name="msgsys", driver="drv_msg.c", sources=["msg_sys/msg_sys.c"], trace="MsgSysTrace", mc=[("MCMsgSys", "MCMsgSys")], generate=gen_sys, ops=["msg"],
             walk_reset=["reset"], trace_cfg="CONSTANTS Streams = {1, 2}\nCounters = {1, 2}\nINVARIANT TypeOK\n")
    d.update(kw); return Comp(**d)
def gen_span(rng, tier):
    out = []
    def src():
        k = rng.choice([1, 2, 3, 8, 11, 12, 103, 1005 if rng.random() < .2 else 4])
        ls = ["".join(rng.choice("ab(){;\t ") for _ in range(rng.choice([0, 0, 1, 5, 30]) if k < 200 else rng.choice([0, 0, 1]))) for _ in range(k)]
        nl = rng.choice(["\n", "\n", "\r\n", "\r"]); return nl.join(ls) + rng.choice(["", nl]), len(ls)
    for _ in range(70 if tier == "quick" else 1000):
        sc = ["reset"]
        for _ in range(3):
            t, n = src(); sc.append("%s %d %s" % (rng.choice(["text", "file"]), rng.randrange(2), hexs(t) if rng.random() < .95 else "none"))
            if sc[-1].endswith("none"): sc[-1] = "file 1 none"; sc.append("text 1 " + hexs(t))
            if n > 500: k = 3
            else: k = 14
            last = (1, 1)
            for _ in range(k):
                o = rng.randrange(10)
                if o < 4:
                    a = rng.randrange(1, n + 1); b = min(n, a + rng.choice([0, 0, 0, 1, 3])); c = rng.randrange(20)
                    if rng.random() < .5: # lines around the places where the number of digits grows, overlapping earlier labels
                        a = max(1, min(n, rng.choice([9, 10, 99, 100, 999, 1000, last[1]]) - rng.choice([0, 0, 1, 2]))); b = min(n, a + rng.choice([0, 1, 2, 4]))
                    last = (a, b)
                    sc.append("label %d %d %d %d %s %d %s %s" % (a, b, c, c + rng.choice([0, 1, 2, 9]), rng.choice(["null", hexs(COL[1]), hexs("")]), rng.choice([94, 61, 0xe9, 0x261d, 0x1f600]), rng.choice(["null", hexs(COL[2]), hexs("")]), hexs(txt(rng, rng.choice([0, 3, 30])))))
                elif o == 4: sc.append("note %s %s" % (hexs(rng.choice(COL)), hexs(txt(rng, rng.choice([0, 3, 30])))))
                elif o < 7: sc.append("emit %d %s %s %s %s %d %d %s" % (rng.randrange(2), rng.choice(["null", hexs("f.c")]), rng.choice(["null", hexs("error"), hexs("")]), rng.choice(["null", hexs("E0001")]), hexs(rng.choice(COL)), rng.choice([-1, 0, 7, 2**31]), rng.choice([-1, 3]), hexs(txt(rng))))
                elif o == 7: sc.append("line %s" % rng.choice([0, n - 1, n, n + 1, -1, rng.randrange(n)]))
                elif o == 8 and rng.random() < .3: sc.append("from 1 %d" % rng.choice(STANDS))
                elif o == 8: sc.append("merge " + " ".join(str(rng.choice([0, 1, 2, 50, 999])) for _ in range(8)))
                elif rng.random() < .15: sc.append("clear %d" % rng.randrange(2))
            sc.append("clear %d" % rng.randrange(2))
        out.append(sc)
    # many labels and notes in one diagnostic, columns and lines far out, long lines
    for far in (0, 5, 14, 62, 126, 254, 300):
        for many in (3, 9, 17, 33, 70) if tier == "thorough" else (rng.choice([3, 9, 17]), 33, 70):
            width = far + 40; n = rng.choice([1, 12, 120])
            sc = ["reset", "text %d %s" % (rng.randrange(2), hexs("\n".join("".join(rng.choice("ab;") for _ in range(width if k < 3 or k == n - 1 else 1)) for k in range(n))))]
            for _ in range(2):
                for k in range(many):
                    a = rng.choice([1, min(n, 2), n, n, rng.randrange(1, n + 1)]); c = far + rng.choice([0, 1, 2, 3, 9]) if rng.random() < .9 else 0
                    sc.append("label %d %d %d %d %s 94 %s %s" % (a, min(n, a + rng.choice([0, 0, 0, 1, 2])), c, c + rng.choice([1, 1, 2, far]), rng.choice(["null", hexs(COL[1])]), rng.choice(["null", hexs(COL[2])]), hexs(txt(rng, rng.choice([0, 1, 5])))))
                sc += ["note %s %s" % (hexs(rng.choice(COL)), hexs(txt(rng, 3)))] * rng.choice([0, 1, many])
                sc.append("emit 1 null x65 null x -1 -1 x6d")
            out.append(sc + ["clear 1"])
    out.append(["reset", "text 1 x61"] + [o for v in STANDS for o in ["from 1 %d" % v] + ["emit 1 null x65 null x -1 -1 x6d"] * 3] + ["emit 1 null x65 null x -1 -1 x6d"] * 300 + ["clear 1"])
    return out
def msgspan(**kw):
    d = dict(name="msgspan", driver="drv_msg.c", sources=["msg_span/msg_span.c", "str/str.c", "array/array.c", "lex/lex.c"], trace="MsgSpanTrace", mc=[("MCMsgSpan", "MCMsgSpan")], generate=gen_span,
             ops="text file clear line label note emit merge".split(), walk_reset=["reset"], trace_cfg="INVARIANT TypeOK\n", cflags=["-DMSG_SPAN"], walk_limit=dict(quick=20000, thorough=200000))
    d.update(kw); return Comp(**d)
