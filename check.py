#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_TIER=quick|thorough, VERIF_SEED=n)
   check.py --replay DIR        re-run a saved violation
   check.py --selftest          corrupt recorded traces and require their rejection (binding test)

For every component a property rests on:
  1. the driver is built from /repo's current working tree (ASan, allocation interposer);
  2. TLC checks the component's specification exhaustively within small constants and prints
     every explored transition;
  3. those transitions are turned into call sequences that take each of them in the real code, and
     random long histories are added (seeded);
  4. the driver performs the calls on the real code and records one event per call;
  5. TLC decides whether the recorded events are a behaviour of the specification.
A rejected event (confirmed by a second TLC run on the recorded trace) is a violation.
"""
import sys, os, json, random, subprocess, time, shutil, re, hashlib, collections
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()

class ModelFailure(Exception): pass

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def tlc_cmd(module, cfg, metadir, workers, heap="3g", extra=()):
    return ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss256m",
            "-Djava.io.tmpdir=" + os.path.dirname(metadir), "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-metadir", metadir,
            "-workers", str(workers), "-config", cfg, *extra, module]

def run_tlc(module, cfg, workers=1, env=None, heap="3g", timeout=800, work=None, extra=()):
    meta = os.path.join(work, "meta-%s-%d" % (os.path.basename(module), time.time_ns()))
    e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(tlc_cmd(module, cfg, meta, workers, heap, extra), cwd=os.path.join(HERE, "spec"), env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ModelFailure("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

# ------------------------------------------------------------------ building
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
WRAPS = ["malloc", "calloc", "realloc", "free"]
def build(comp, work):
    out = os.path.join(work, "drv_" + comp.name)
    objs, cmds = [], []
    cflags = ["-g", "-O1", "-w"] + (SAN if comp.asan else []) + comp.cflags
    for s in comp.sources:
        o = os.path.join(work, comp.name + "-" + s.replace("/", "_") + ".o")
        cmds.append(["gcc", "-std=c99", "-c", *cflags, "-o", o, os.path.join(REPO, s)]); objs.append(o)
    o = os.path.join(work, comp.name + "-driver.o")
    cmds.append(["gcc", "-std=gnu11", "-c", *cflags, "-I", REPO, "-I", os.path.join(HERE, "harness"), "-o", o,
                 os.path.join(HERE, "harness", comp.driver)]); objs.append(o)
    def cc(c):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise ModelFailure("does not build: %s\n%s" % (" ".join(c), p.stdout[-3000:]))
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(cc, cmds))
    cc(["gcc", *cflags, "-o", out, *objs] + ["-Wl,--wrap=" + w for w in WRAPS + comp.wraps] + ["-lm", "-ldl", *comp.libs])
    return out

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0"
def run_driver(comp, exe, script, trace, cwd):
    shutil.rmtree(cwd, ignore_errors=True)          # a directory of the run's own: nothing is left from another run
    os.makedirs(cwd)
    if comp.prepare: comp.prepare(cwd)
    env = dict(os.environ); env["ASAN_OPTIONS"] = ASAN; env["LC_ALL"] = "C.UTF-8"; env["HARNESS_CWD"] = cwd
    for attempt in range(3):
        with open(trace + ".stdout", "wb") as so, open(trace + ".stderr", "wb") as se:
            try: rc = subprocess.run([exe, script, trace], cwd=cwd, env=env, stdout=so, stderr=se, stdin=subprocess.DEVNULL, timeout=600).returncode
            except subprocess.TimeoutExpired: rc = -999
        # an interrupted start (no event at all, no diagnostics) is not an observation of the code
        if rc == 0 or os.path.getsize(trace) > 0 or os.path.getsize(trace + ".stderr") > 0: break
    if rc != 0:
        data = open(trace, "rb").read()
        cut = data.rfind(b"\n") + 1
        with open(trace, "wb") as f:
            f.write(data[:cut]); 
            if not data[:cut].endswith(b'{"op":"hang"}\n'): f.write(b'{"op":"crash","rc":%d}\n' % rc)
    return rc

# ------------------------------------------------------------------ model checking and walks
EDGE = re.compile(r'^<<"EDGE", (".*")>>$')
def model_check(comp, mc, work):
    module, cfg = mc
    rc, out = run_tlc(module + ".tla", cfg + ".cfg", workers=4, work=work, heap="6g", timeout=800)
    m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if rc != 0 or "No error has been found" not in out or not m:
        raise ModelFailure("model checking %s failed (rc %d):\n%s" % (cfg, rc, "\n".join(x for x in out.splitlines() if "EDGE" not in x)[-4000:]))
    edges = []
    for line in out.splitlines():
        g = EDGE.match(line)
        if g: edges.append(json.loads(json.loads(g.group(1))))
    return dict(cfg=cfg, transitions=int(m.group(1)), states=int(m.group(2)), edges=edges)

def word(x):
    if isinstance(x, bool): return "1" if x else "0"
    if isinstance(x, list): return "x" + "".join("%02x" % b for b in x)
    return str(x)

def walks(edges, rng, maxlen, limit=None, reset=None):
    """Cover every transition of the explored graph by walks that start in the initial state."""
    out_e, init = collections.defaultdict(list), 0
    first = json.dumps(edges[0][0], sort_keys=True) if edges else ""
    # TLC's workers report in any order: sort, so that a seed always gives the same walks
    distinct = sorted({(json.dumps(s, sort_keys=True), json.dumps(op), json.dumps(t, sort_keys=True)) for s, op, t in edges}, key=lambda e: (e[0] != first, e))
    ids = {first: 0}
    for s, op, t in distinct:
        a, b = ids.setdefault(s, len(ids)), ids.setdefault(t, len(ids))
        out_e[a].append([json.loads(op), b, False])
    total = len(distinct)
    for a in list(out_e): rng.shuffle(out_e[a])
    # breadth-first tree for reaching a state with unused edges
    left = {a: len(v) for a, v in out_e.items()}
    nxt = {a: 0 for a in out_e}
    remaining, scen, covered = total, [], 0
    def path_to_unused(src):
        prev, q, vis = {}, collections.deque([src]), {src}
        while q:
            a = q.popleft()
            if left.get(a, 0) > 0:
                p = []
                while a != src: a, op = prev[a]; p.append(op)
                return list(reversed(p))
            for op, b, _ in out_e.get(a, ()):
                if b not in vis: vis.add(b); prev[b] = (a, (op, b)); q.append(b)
        return None
    def step_of(prev): return prev
    while remaining > 0 and (limit is None or covered < limit):
        cur, lines = init, []
        while len(lines) < maxlen:
            if left.get(cur, 0) > 0:
                es = out_e[cur]; e = es[nxt[cur]]; nxt[cur] += 1; left[cur] -= 1; remaining -= 1; covered += 1
                lines.append(e[0]); cur = e[1]; continue
            p = path_to_unused(cur)
            if p is None: break
            for op, b in p: lines.append(op); cur = b
        if not lines: break
        scen.append([" ".join(word(w) for w in op) for op in lines])
    return scen, total, covered

# ------------------------------------------------------------------ trace validation
def validate(comp, trace, work):
    """-> None if accepted, else the 1-based number of the first event not explained."""
    cfg = os.path.join(work, "T-%s-%d.cfg" % (comp.name, time.time_ns()))
    with open(cfg, "w") as f:
        f.write("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n" + comp.trace_cfg)
    rc, out = run_tlc(comp.trace + ".tla", cfg, env={"TRACE": trace}, work=work, timeout=800)
    os.unlink(cfg)
    with open(trace + ".tlc", "w") as f: f.write(out)
    d = re.search(r"REJECTED_AT.*?(\d+)", out)
    if d: return int(d.group(1)), out
    if rc == 0 and "No error has been found" in out: return None, out
    # the specification could not even evaluate an event (e.g. ill-typed result): the event is not explained
    ev = re.search(r"TRACELINE (\d+)", out)
    lv = re.findall(r"^/\\ l = (\d+)", out, re.M)
    if lv and ("evaluat" in out or "Attempted" in out or "is violated" in out) and "StackOverflow" not in out and "OutOfMemory" not in out:
        return int(lv[-1]), out
    raise ModelFailure("trace validation failed to run (rc %d):\n%s" % (rc, out[-4000:]))

def split_scenarios(lines):
    sc = []
    for ln in lines:
        if ln.startswith("reset"): sc.append([])
        sc[-1].append(ln)
    return sc

def chunks(scens, n, maxlines):
    total = sum(map(len, scens)); k = max(n, -(-total // maxlines)); per = max(1, -(-total // k))
    out, cur, c = [], [], 0
    for s in scens:
        cur.append(s); c += len(s)
        if c >= per: out.append(cur); cur, c = [], 0
    if cur: out.append(cur)
    return out

def check_chunk(comp, exe, idx, scens, work):
    base = os.path.join(work, "%s-%03d" % (comp.name, idx))
    with open(base + ".script", "w") as f:
        for s in scens: f.write("\n".join(s) + "\n")
    run_driver(comp, exe, base + ".script", base + ".ndjson", base + ".cwd")
    rej, out = validate(comp, base + ".ndjson", work)
    stats = collections.Counter(); n = 0
    with open(base + ".ndjson") as f:
        for line in f:
            n += 1
            m = re.match(r'\{"op":"(\w+)"', line); stats[m.group(1) if m else "?"] += 1
            for x in comp.need:
                if x in line: stats["+" + x] += 1
    return dict(base=base, rej=rej, n=n, stats=stats, scens=scens)

def localize(comp, exe, res, work, prop):
    """Confirm the rejection, reduce it to the one scenario if that suffices, save a replay directory."""
    base = res["base"]
    again, _ = validate(comp, base + ".ndjson", work)
    if again is None: raise ModelFailure("a rejection of %s was not repeatable" % base)
    dst = os.path.join(HERE, "build", "replay", prop, comp.name + "-" + os.path.basename(base))
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    # the scenario that contains the rejected event
    events = open(base + ".ndjson").read().splitlines()
    k = sum(1 for e in events[:res["rej"]] if e.startswith('{"op":"reset"')) - 1
    scen = res["scens"][max(0, min(k, len(res["scens"]) - 1))]
    script = os.path.join(dst, "scenario.script")
    open(script, "w").write("\n".join(scen) + "\n")
    tr = os.path.join(dst, "trace.ndjson")
    run_driver(comp, exe, script, tr, os.path.join(work, "replay-cwd"))
    rej, out = validate(comp, tr, work)
    if rej is None:      # needs the whole chunk
        shutil.copy(base + ".script", script); shutil.copy(base + ".ndjson", tr); rej, events = res["rej"], events
    else: events = open(tr).read().splitlines()
    info = dict(property=prop, component=comp.name, rejected_event=rej, event=events[rej - 1] if rej <= len(events) else "(end)",
                previous=events[max(0, rej - 4):rej - 1])
    se = tr + ".stderr"
    if os.path.exists(se): info["stderr"] = [l for l in open(se, errors="replace").read().splitlines() if "ERROR" in l or "SUMMARY" in l][:3]
    json.dump(info, open(os.path.join(dst, "info.json"), "w"), indent=1)
    for x in os.listdir(dst):
        if x.endswith((".tlc", ".stdout")): os.unlink(os.path.join(dst, x))
    return dst, info

# ------------------------------------------------------------------ one component
def run_component(comp, work, seed, tier, prop):
    gen = lambda what: random.Random("%s-%s-%s" % (seed, comp.name, what))   # independent of each other and of TLC
    with ThreadPoolExecutor(1 + len(comp.mc)) as ex:
        fb = ex.submit(build, comp, work)
        fm = [ex.submit(model_check, comp, m, work) for m in comp.mc_for(tier)]
        exe = fb.result(); mcs = [f.result() for f in fm]
    scens, cover = [], []
    for m in mcs:
        if m["edges"]:
            w, total, covered = walks(m["edges"], gen("walks"), comp.walk_len, comp.walk_limit.get(tier))
            init = comp.walk_reset
            scens += [[init[i % len(init)]] + x for i, x in enumerate(w)]
            cover.append(dict(config=m["cfg"], transitions_in_graph=total, transitions_replayed=covered))
    nwalk = len(scens)
    fixed = comp.fixed() if comp.fixed else []
    rnd = comp.generate(gen("histories"), tier) if comp.generate else []
    scens += fixed + rnd
    if not scens: raise ModelFailure("no scenario for " + comp.name)
    gen("order").shuffle(scens)
    cs = chunks(scens, NPROC, comp.chunk)
    log("%s: %d TLC states, %d scenarios (%d from the model), %d chunks" % (comp.name, sum(m["states"] for m in mcs), len(scens), nwalk, len(cs)))
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda a: check_chunk(comp, exe, a[0], a[1], work), enumerate(cs)))
    ev = sum(r["n"] for r in res); stats = collections.Counter()
    for r in res: stats.update(r["stats"])
    log("%s: %d events checked, %d chunk(s) rejected" % (comp.name, ev, sum(r["rej"] is not None for r in res)))
    viol = []
    for r in [r for r in res if r["rej"] is not None][:2]: viol.append(localize(comp, exe, r, work, prop))
    if not viol:
        missing = [o for o in comp.ops if stats[o] == 0] + [x for x in comp.need if stats["+" + x] == 0]
        if missing: raise ModelFailure("vacuous: operations never exercised: %s" % missing)
    known = []
    if not viol:
        for kf in load_known(prop, comp.name):
            base = os.path.join(work, "kf-" + kf["id"])
            open(base + ".script", "w").write("\n".join(kf["script"]) + "\n")
            run_driver(comp, exe, base + ".script", base + ".ndjson", base + ".cwd")
            rej, _ = validate(comp, base + ".ndjson", work)
            if rej is not None: known.append(kf)
    samples = [s[:12] for s in (scens[:1] + rnd[:1])]
    return dict(states=sum(m["states"] for m in mcs), transitions=sum(m["transitions"] for m in mcs), events=ev, stats=dict(stats),
                scenarios=len(scens), walks=nwalk, cover=cover, viol=viol, samples=samples, known=known)

def load_known(prop, comp):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == prop and k["component"] == comp]

def main():
    import registry
    if sys.argv[1] == "--replay": return replay(sys.argv[2], registry)
    if sys.argv[1] == "--selftest": return selftest(registry, sys.argv[2:])
    prop = sys.argv[1]
    comps = registry.PROPS[prop]
    work = os.path.join(HERE, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    seed = "%s-%d-%s" % (prop, SEED, TIER)
    try:
        results = [(c, run_component(c, work, seed, TIER, prop)) for c in (x() if callable(x) else x for x in comps)]
    except ModelFailure as e:
        print("CHECK ERROR property=%s: %s" % (prop, e)); return 2
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    viol = [v for _, r in results for v in r["viol"]]
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(viol),
        coverage=dict(states=sum(r["states"] for _, r in results), transitions=sum(r["transitions"] for _, r in results),
            traces_validated_against_impl=sum(r["scenarios"] for _, r in results),
            events_validated=sum(r["events"] for _, r in results),
            behaviours_generated_from_model=sum(r["walks"] for _, r in results),
            transition_coverage=[c for _, r in results for c in r["cover"]],
            operations={c.name: r["stats"] for c, r in results},
            samples=[s for _, r in results for s in r["samples"]]),
        assumptions=["the driver's projection (harness/) reports the public API's results faithfully",
                     "TLC and the gcc/ASan toolchain are trusted", "outside the small model constants the code is observed only on the generated histories"])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for _, r in results:
        for k in r["known"]: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for dst, info in viol:
        print("rejected event:", info["event"][:600]); 
        for l in info.get("stderr", []): print("   ", l[:200])
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    log("%s: %s" % (prop, "VIOLATED" if viol else "held on everything explored"))
    return 1 if viol else 0

def replay(dst, registry):
    info = json.load(open(os.path.join(dst, "info.json")))
    comp = registry.COMPS[info["component"]]()
    work = os.path.join(HERE, "build", "replay-%d" % os.getpid()); os.makedirs(work)
    try:
        exe = build(comp, work); tr = os.path.join(work, "t.ndjson")
        run_driver(comp, exe, os.path.join(dst, "scenario.script"), tr, os.path.join(work, "cwd"))
        rej, _ = validate(comp, tr, work)
        print("accepted" if rej is None else "rejected at event %d: %s" % (rej, (open(tr).read().splitlines() + ["(end)"])[rej - 1][:1000]))
        return 0 if rej is None else 1
    finally: shutil.rmtree(work, ignore_errors=True)

def corrupt(ev, rng):
    """Change one scalar somewhere in the results of an event."""
    paths = []
    def rec(x, p):
        if isinstance(x, dict):
            for k, v in x.items():
                if k not in ("op",): rec(v, p + [k])
        elif isinstance(x, list):
            for i, v in enumerate(x): rec(v, p + [i])
        else: paths.append(p)
    rec(ev, [])
    if not paths: return None
    p = rng.choice(paths); x = ev
    for k in p[:-1]: x = x[k]
    v = x[p[-1]]
    x[p[-1]] = (not v) if isinstance(v, bool) else (v + 1 if isinstance(v, int) else v + "~")
    return p

def selftest(registry, names):
    work = os.path.join(HERE, "build", "selftest-%d" % os.getpid()); os.makedirs(work); bad = 0
    try:
        for name in names or sorted(registry.COMPS):
            comp = registry.COMPS[name](); rng = random.Random(SEED)
            exe = build(comp, work)
            sc = (comp.generate(rng, "quick") if comp.generate else comp.fixed())[:6]
            script = os.path.join(work, name + ".script"); open(script, "w").write("\n".join("\n".join(s) for s in sc) + "\n")
            tr = os.path.join(work, name + ".ndjson"); run_driver(comp, exe, script, tr, os.path.join(work, "cwd"))
            rej, _ = validate(comp, tr, work)
            if rej is not None: print(name, "base trace rejected at", rej); bad += 1; continue
            evs = [json.loads(x) for x in open(tr)]
            caught, tried, missed = 0, 0, collections.Counter()
            jobs = []
            for k in range(24):
                i = rng.randrange(len(evs)); e = json.loads(json.dumps(evs[i])); p = corrupt(e, rng)
                if p is None: continue
                t2 = os.path.join(work, "%s-c%d.ndjson" % (name, k))
                with open(t2, "w") as f:
                    for j, x in enumerate(evs[:i + 40]): f.write(json.dumps(e if j == i else x) + "\n")
                jobs.append((t2, e["op"], p))
            with ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(lambda j: validate(comp, j[0], work)[0], jobs))
            for (t2, op, p), r in zip(jobs, rs):
                tried += 1; caught += r is not None
                if r is None: missed[op + ":" + ".".join(str(x) for x in p if not isinstance(x, int))] += 1
            print("%-12s corrupted %d, rejected %d, accepted: %s" % (name, tried, caught, dict(missed)))
    finally: shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0

if __name__ == "__main__": sys.exit(main())
