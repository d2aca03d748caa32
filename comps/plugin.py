import os, subprocess
from .base import *
def libs(cwd):
    """the versions of the plugin library that the driver installs"""
    d = os.path.join(cwd, "lib")
    if os.path.isdir(d): return
    os.makedirs(d)
    for v in (1, 2, 3):
        c = os.path.join(d, "v%d.c" % v)
        with open(c, "w") as f: f.write("int plugin_id = %d;\n" % v + ("int plugin_extra = 20;\n" if v == 2 else ""))
        subprocess.run(["gcc", "-shared", "-fPIC", "-o", os.path.join(d, "v%d.so" % v), c], check=True)
def gen_handles(rng, tier):
    out = []
    ver = lambda: rng.choice([1, 2, 3, 1, 2, 3, -1])
    for _ in range(150 if tier == "quick" else 2500):
        sc, t = ["reset %d" % rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7])], rng.choice([2, 4])
        ps = rng.choice([1, 2, 3])
        p = lambda: rng.randrange(1, ps + 1)
        mt = lambda: rng.randrange(1, t + 1)
        for i in range(1, ps + 1): sc.append("install %d %d %d" % (i, ver(), mt()))
        for _ in range(40):
            h = rng.randrange(3); o = rng.randrange(24)
            if o < 3: sc.append("install %d %d %d" % (p(), ver(), mt()))
            elif o == 3: sc.append("remove %d" % p())
            elif o == 4: sc.append("touch %d %d" % (p(), mt()))
            elif o < 11:
                q = p() if rng.random() < .9 else rng.choice([0, -1, -2, -3, -4])
                if rng.random() < .1: sc.append("fail 1")
                sc.append("load %d %d %d" % (h, q, rng.random() < .8) + (" %d %d" % (ver(), mt()) if q > 0 and rng.random() < .2 else ""))
            elif o < 16: sc.append("reload %d %d %d" % (h, rng.random() < .8, rng.random() < .8) + (" %d %d" % (ver(), mt()) if rng.random() < .2 else ""))
            elif o < 19: sc.append("changed %d" % h)
            elif o < 22: sc.append("get %d %d" % (h, rng.randrange(3)))
            else: sc.append("clear %d %d" % (h, rng.random() < .8))
        sc += ["clear 0 1", "clear 1 1", "clear 2 1"]
        out.append(sc)
    return out
def handles(**kw):
    d = dict(name="plugin", driver="drv_plugin.c", sources=["plugins/plugins.c"], trace="PluginTrace", mc=[("MCPlugin", "MCPlugin")], generate=gen_handles,
             ops="install remove touch load reload changed get clear".split(), walk_reset=["reset"], prepare=libs, wraps=["dlopen", "dlclose"],
             trace_cfg="CONSTANTS Handles = {0, 1, 2}\nPaths = {1, 2, 3}\nVersions = {1, 2, 3}\nTimes = {1, 2, 3, 4}\nINVARIANTS TypeOK Balanced Noticed\n",
             walk_limit=dict(quick=25000, thorough=81000), need=['"race":true', '"oom":true', '"err":5'])
    d.update(kw); return Comp(**d)
NAMES = ["a.so", "b.so", "libx.so", "c.SO", "d.so.1", "so", ".so", ".hid", ".hid.so", "x.", "plain", "sub", "dir.so", "with space.so", "\xc3\xa9.so", "n" * 252 + ".so", "q.so ", "-r.so", "two..so", "t.plug", "%s%n.so", "back\\slash.so", "e.so.", "e.plugin1.", "f.plugin1", "g.plugin2", "h.plugin", "i.plugin12", "j." + "e" * 100, "k." + "e" * 99 + "f", "l." + "e" * 101, "m.s", "n.sO", "o.soo", "p. so"]
def all_names():
    "every name beside every other one, asked for every extension"
    sc = ["reset"] + ["file x " + hexs(n) for n in NAMES] + ["dir x " + hexs("in.so")] + ["file %s %s" % (hexs("in.so"), hexs(n)) for n in NAMES[::3]]
    return sc + ["walk x " + (hexs(e) if e is not None else "none") for e in [None, "so", "SO", "", "1", "plug", "plugin1", "plugin2", "plugin", "plugin12", "plugin123", "p", "hid", "so ", "so.", ".so", "soo", "s", " so", "e" * 100, "e" * 99 + "f", "e" * 101, "e" * 99, "o", "e.so"]]
def gen_walk(rng, tier):
    out = [all_names()]
    for _ in range(130 if tier == "quick" else 2000):
        sc = ["reset"]; dirs, files, used = [""], [], set()
        deep = rng.random() < .08
        if deep: sc.append("deep %s %d %s" % (hexs("chain"), *rng.choice([(20, hexs("k" * 250)), (950, hexs("d")), (30, hexs("ab"))])))
        if rng.random() < .1:                                  # a branch of very long names
            d = ""
            for i in range(rng.choice([14, 15, 16])):
                n = "L%d" % i + "l" * 248; sc.append("dir %s %s" % (hexs(d), hexs(n))); d = d + "/" + n if d else n
                sc.append("file %s %s" % (hexs(d), hexs(rng.choice(["v.so", "w.txt"]))))
        for _ in range(rng.choice([0, 2, 6, 12, 30])):
            d = rng.choice(dirs); n = rng.choice(NAMES)
            if rng.random() < .3: n = "%d%s" % (rng.randrange(9), n[-40:])
            if len(d) > 1500 or d.count("/") > 9: continue
            p = d + "/" + n if d else n
            if p in used: continue
            used.add(p); o = rng.randrange(12)
            if o < 4: sc.append("dir %s %s" % (hexs(d), hexs(n))); dirs.append(p)
            elif o < 9: sc.append("file %s %s" % (hexs(d), hexs(n))); files.append(p)
            elif o == 9 and rng.random() < .4: sc.append("pipe %s %s" % (hexs(d), hexs(n))); files.append(p)
            else:
                to = rng.choice([rng.choice(dirs), rng.choice(files or [""]), "nowhere", p, rng.choice(dirs)])
                sc.append("link %s %s %s" % (hexs(d), hexs(n), hexs(to)))
        for _ in range(3):
            d = rng.choice(["", rng.choice(dirs), rng.choice(dirs), rng.choice(files or ["zz"]), "missing", ".", "./" + rng.choice(dirs), rng.choice(dirs) + "/", "/" + rng.choice(dirs)])
            if deep and rng.random() < .7: d = rng.choice(["", "chain"])
            e = rng.choice(["none", "none", hexs("so"), hexs("SO"), hexs(""), hexs("1"), hexs("plug"), hexs("hid"), hexs("so "), hexs("zzz"), hexs("plugin1"), hexs("plugin1"), hexs("plugin"), hexs("e" * 100), hexs("soo"), hexs("so.")])
            if deep and e in ("none", hexs("so")) and rng.random() < .8: e = hexs("zzz")
            sc.append("walk %s %s" % (hexs(d), e))
        if rng.random() < .3: sc.append("fail %d" % rng.choice([1, 1, 2, 3, 5]))
        sc.append("walk x none" if not deep else "walk x " + hexs("zzz"))
        if not deep: sc += ["walkrm x none", "walk x none"]
        out.append(sc)
    return out
def walk(**kw):
    d = dict(name="walk", driver="drv_walk.c", sources=["plugins/plugins.c"], trace="WalkTrace", mc=[("MCWalk", "MCWalk")], mc_thorough=[("MCWalk", "MCWalkThorough")], generate=gen_walk,
             ops=["dir", "file", "link", "walk"], walk_reset=["reset"], need=['"oom":true', '"op":"walkrm"'], walk_limit=dict(quick=12000, thorough=60000))
    d.update(kw); return Comp(**d)
