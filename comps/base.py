class Comp:
    """A component: driver, sources of /repo it exercises, specification modules, history generator."""
    def __init__(self, name, driver, sources, trace, mc=(), generate=None, fixed=None, ops=(), walk_reset=("reset 1",),
                 walk_len=150, walk_limit=None, chunk=40000, cflags=(), wraps=(), libs=(), prepare=None, trace_cfg="", asan=True,
                 mc_thorough=None, need=()):
        self.name, self.driver, self.sources, self.trace = name, driver, list(sources), trace
        self.need = list(need)      # substrings that must occur in the recorded events (vacuity guard)
        self.mc, self.mc_thorough = list(mc), mc_thorough
        self.generate, self.fixed, self.ops = generate, fixed, list(ops)
        self.walk_reset, self.walk_len, self.walk_limit, self.chunk = list(walk_reset), walk_len, walk_limit or {}, chunk
        self.cflags, self.wraps, self.libs, self.prepare, self.trace_cfg, self.asan = list(cflags), list(wraps), list(libs), prepare, trace_cfg, asan
    def mc_for(self, tier):
        return self.mc_thorough if tier == "thorough" and self.mc_thorough else self.mc

def hexs(b):
    if isinstance(b, str): b = b.encode("latin-1")
    return "x" + bytes(b).hex()

MAX = "-1"                      # SIZE_MAX
def pick(rng, *pairs):
    """weighted choice: pick(rng, (w, x), ...)"""
    return rng.choices([x for _, x in pairs], [w for w, _ in pairs])[0]

def faulty(mod, comp, **kw):
    """the fault-injection variant of a component (property F01)"""
    return lambda: comp(generate=mod.generate_fault, need=['"oom":true'], ops=[], mc=[], **kw)
def plain(comp):
    """a component's histories alone, where another check explores its model"""
    return lambda: comp(mc=[], ops=[])
