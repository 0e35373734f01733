#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      (see DESIGN.md)

1. TLC generates scenarios (API calls with concrete arguments) from the specification  (spec/Gen*.tla)
2. the harness replays them into directx_math, built from /repo in every configuration    (harness/)
3. TLC validates the recorded calls against the specification                             (spec/*.tla, TraceBase)
4. TLC checks the specification itself (design-level properties)                          (spec/MC*.tla)
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the machinery failed.
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC, BUILD = ROOT + "/spec", ROOT + "/build"
TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"
S3, S4 = "+sse3", "+sse3,+sse4.1"
AV, F16 = S4 + ",+avx", S4 + ",+avx,+f16c"
FMA, AV2 = F16 + ",+fma", F16 + ",+fma,+avx2"
#        name          toolchain features          target features  profile
CONFIGS = {
    "nointr":        (STABLE, "no_intrinsics", "", "dev"),
    "sse2":          (STABLE, "", "", "dev"),
    "sse3":          (STABLE, "", S3, "dev"),
    "sse4.1":        (STABLE, "", S4, "dev"),
    "avx":           (STABLE, "", AV, "dev"),
    "f16c":          (STABLE, "", F16, "dev"),
    "fma":           (STABLE, "", FMA, "dev"),
    "avx2":          (STABLE, "", AV2, "dev"),
    "favor_intel":   (STABLE, "favor_intel", AV2, "dev"),
    "spec_nointr":   (NIGHTLY, "no_intrinsics,specialization", "", "dev"),
    "rel_nointr":    (STABLE, "no_intrinsics", "", "release"),
    "rel_avx2":      (STABLE, "", AV2, "release"),
}

# code that only these configurations select is limited to compile-time permutes and half conversion
SPECIAL = ("f16c", "spec_nointr")

class Tool(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        raise Tool("timeout after %ss: %s" % (timeout, " ".join(cmd)[:300]))
    return p.returncode, out

# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/build.rs", REPO + "/Cargo.toml"]
    files += sorted(glob.glob(ROOT + "/harness/src/**/*", recursive=True)) + [ROOT + "/harness/Cargo.toml"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build_java():
    src = ROOT + "/java/NumOverrides.java"
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = "%s/classes-%s" % (BUILD, tag)
    if not os.path.exists(out + "/ok"):
        tmp = out + ".%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        rc, o = sh(["javac", "-nowarn", "-cp", TLAJ, "-d", tmp, src], 300)
        if rc: raise Tool("javac failed\n" + o)
        open(tmp + "/ok", "w").close()
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return out

def build_one(args):
    name, bins, root = args
    tool, feats, tf, prof = CONFIGS[name]
    env = {"RUSTUP_TOOLCHAIN": tool, "CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": "%s/%s" % (root, name), "CARGO_INCREMENTAL": "0",
           "RUSTFLAGS": "--cap-lints=allow -C target-cpu=x86-64" + (" -C target-feature=" + tf if tf else ""), "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "",
           "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin")}
    cmd = ["cargo", "build", "--offline", "-q"]
    for b in bins: cmd += ["--bin", b]
    if feats: cmd += ["--features", feats]
    if prof == "release": cmd += ["--release"]
    rc, o = sh(cmd, 600, env, ROOT + "/harness")
    if rc:
        if name != "sse2":                 # the default configuration has to build; the others are left out if they do not
            log("  configuration %s does not build, left out: %s" % (name, o[-600:])); return name, None
        raise Tool("building %s failed\n%s" % (name, o[-4000:]))
    return name, "%s/%s/%s/" % (root, name, "release" if prof == "release" else "debug")

def build(bins, configs):
    root = "%s/t/%s" % (BUILD, tree_hash())
    os.makedirs(root, exist_ok=True)
    os.utime(root)
    old = sorted((d for d in glob.glob(BUILD + "/t/*") if d != root), key=os.path.getmtime)
    for d in old[:-1]: shutil.rmtree(d, ignore_errors=True)
    order = sorted(configs, key=lambda c: CONFIGS[c][3] != "release")       # slowest first
    with cf.ThreadPoolExecutor(8) as ex:
        return dict(ex.map(build_one, [(c, bins, root) for c in order]))

# ------------------------------------------------------------------ literals found in the sources
NUM = re.compile(r"(?<![\w.])(-?\d[\d_]*\.\d[\d_]*(?:[eE][-+]?\d+)?|-?\d[\d_]*[eE][-+]?\d+|0x[0-9a-fA-F_]+|\d[\d_]*\.?)(?:f32|u32|i32|usize)?")
def literals(paths):
    out = set()
    for p in paths:
        s = open(p, errors="replace").read()
        s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
        s = re.sub(r"//[^\n]*", " ", s)
        for t in NUM.findall(s):
            t = t.replace("_", "")
            try:
                if t.lower().startswith("0x"):
                    n = int(t, 16)
                    if n < 1 << 32: out.add(n)
                    out.add(f32bits(float(n)))
                else:
                    out.add(f32bits(float(t)))
                    if "." not in t and "e" not in t.lower() and int(t) < 1 << 32 and int(t) > 4096: out.add(int(t))
            except (ValueError, OverflowError): pass
    return out
def f32bits(x):
    try: return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError: return 0x7F800000
def signed(w): return w - (1 << 32) if w >= 1 << 31 else w
def dictionary(path):
    base = set(json.load(open(ROOT + "/spec/baseline_literals.json")))
    now = literals(sorted(glob.glob(REPO + "/src/*.rs")))
    fresh = sorted(now - base)
    old = sorted(now & base)
    lst = [signed(w) for w in old]
    if fresh:
        rep = max(1, min(400, len(old) // len(fresh)))
        lst = [signed(w) for w in old] + [signed(w) for w in fresh] * rep
    json.dump(lst or [0], open(path, "w"))
    return len(old), len(fresh)

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, scratch, classes, env, timeout, workers=8, heap="6g", extra=(), files=None, xss="64m"):
    """run TLC on module text/cfg text placed in a scratch directory; returns its output"""
    d = "%s/tlc-%s" % (scratch, module)
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(SPEC + "/*.tla"):
        t = d + "/" + os.path.basename(f)
        if not os.path.exists(t): os.symlink(f, t)
    for n, text in (files or {}).items():
        if os.path.islink(d + "/" + n): os.unlink(d + "/" + n)
        open(d + "/" + n, "w").write(text)
    open("%s/%s.cfg" % (d, module), "w").write(cfg)
    cp = TLAJ + (":" + classes if classes else "")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + xss, "-XX:TieredStopAtLevel=4"]
    if classes: cmd += ["-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides"]
    cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", d + "/states", "-nowarning", "-deadlock", "-config", module + ".cfg"] + list(extra) + [module + ".tla"]
    rc, out = sh(cmd, timeout, env, d)
    shutil.rmtree(d + "/states", ignore_errors=True)
    return rc, out
def trim(out, n=1800):
    ls = [l for l in out.splitlines() if not re.match(r"(Parsing file|Semantic processing|Linting|Warning: Picked|Picked up|TLC2 Version|Running breadth|Starting\.\.\.|Computing initial)", l)]
    return "\n".join(ls)[-n:]
STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)
def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def gen(prop, part, scratch, classes, seed, scale, tier, timeout):
    nch = 32
    module = part["gen"]
    plans = part.get("plans", [prop])          # a part may run the plans of other properties, at a scale of its own
    if "scale" in part: scale = part["scale"][tier]
    json.dump(plans, open("%s/plans-%s.json" % (scratch, module), "w"))
    mod = "Run" + module
    text = "---- MODULE %s ----\nEXTENDS %s\nVARIABLES c, i\nINSTANCE GenRun\n====\n" % (mod, module)
    env = {"GEN_SEED": str(seed), "GEN_SCALE": str(scale), "GEN_DICT": scratch + "/dict.json", "GEN_PLANS": "%s/plans-%s.json" % (scratch, module), "GEN_CHUNKS": str(nch), "GEN_OUT": "%s/gen-%s-" % (scratch, module)}
    t = time.time()
    rc, out = tlc(mod, "INIT GInit\nNEXT GNext\n", scratch, classes, env, timeout, files={mod + ".tla": text})
    if rc: raise Tool("scenario generation failed (%s)\n%s" % (module, trim(out)))
    sc = []
    for n in range(1, nch + 1):
        f = "%s/gen-%s-%d.ndjson" % (scratch, module, n)
        for line in open(f):
            if line.strip():
                e = json.loads(line)
                sc.append((e["o"], e["a"]))
        os.unlink(f)
    sc.sort(key=lambda e: e[0])
    if part.get("mixed"): random.Random(seed).shuffle(sc)        # calls of different functions follow one another
    log("  generated %d scenarios in %.1fs" % (len(sc), time.time() - t))
    return sc

def replay(binary, scen, nscen, out, timeout):
    """run the harness over the scenario file; crashes and hangs become X results"""
    open(out, "w").close()
    crashes = 0
    while True:
        have = open(out, "rb").read().count(b"\n")
        if have >= nscen: break
        args = [binary, scen, out, str(have)] + (["flush"] if crashes else [])
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout if not crashes else max(10, timeout // 4))
            if p.returncode == 0: continue
            if p.returncode == 3: raise Tool("harness: " + p.stdout.decode(errors="replace")[-500:])
        except subprocess.TimeoutExpired:
            pass
        data = open(out, "rb").read()
        cut = data[: data.rfind(b"\n") + 1]
        if not crashes:                       # find the culprit with flushing on
            open(out, "wb").write(cut); crashes = 1
            if cut.count(b"\n") >= nscen: break
            continue
        open(out, "wb").write(cut + b"X\n")
        crashes += 1
        if crashes > 40:                      # enough evidence
            have = cut.count(b"\n") + 1
            open(out, "ab").write(b"S\n" * (nscen - have))
    return open(out).read().splitlines()

def validate(module, events, scratch, classes, timeout):
    nch = 64 if len(events) > 64 else 1
    path = "%s/trace-%s.ndjson" % (scratch, module)
    with open(path, "w") as f:
        for o, a, r, _ in events:
            f.write('{"o":"%s","a":[%s],"r":[%s]}\n' % (o, a, r))
    mod = "Trace" + module
    text = "---- MODULE %s ----\nEXTENDS %s, TLC, Json, IOUtils\nTrace == ndJsonDeserialize(IOEnv.TRACE)\nNChunks == atoi(IOEnv.TRACE_CHUNKS)\nVARIABLES c, i\nINSTANCE TraceBase\n====\n" % (mod, module)
    own = bool(re.search(r"^TNext ==", open("%s/%s.tla" % (SPEC, module)).read(), re.M))      # a module with its own trace machine
    if own: text = "---- MODULE %s ----\nEXTENDS %s\n====\n" % (mod, module)
    t = time.time()
    rc, out = tlc(mod, "INIT TInit\nNEXT TNext\n", scratch, classes, {"TRACE": path, "TRACE_CHUNKS": str(nch)}, timeout, files={mod + ".tla": text})
    st = stats(out)
    if rc or "No error has been found" not in out: raise Tool("trace validation failed to run (%s)\n%s" % (module, trim(out)))
    if own and len(set(re.findall(r'<<"CHUNK", (\d+)>>', out))) != nch: raise Tool("trace not consumed")
    if not own and st[1] != len(events) + nch: raise Tool("trace not consumed: %d states for %d events" % (st[1], len(events)))
    rej = sorted({int(x) for x in re.findall(r'<<"REJECT", (\d+)[>,]', out)})
    log("  validated %d events in %.1fs, %d rejected" % (len(events), time.time() - t, len(rej)))
    if own and rej: log("  " + "; ".join(re.findall(r'<<"REJECT", .*>>', out)[:12]))
    os.unlink(path)
    return st, rej

ISA = {"sse": 1, "sse2": 2, "sse3": 3, "ssse3": 4, "sse41": 5, "sse42": 6, "avx": 7, "f16c": 8, "fma": 9, "avx2": 10}
FEAT = {"+sse3": 3, "+sse4.1": 5, "+avx": 7, "+f16c": 8, "+fma": 9, "+avx2": 10}
def isa_events(dirs, bins):
    """one event per unoptimised build: configured extensions, extensions whose intrinsics ended up in the binaries"""
    def one(c):
        tool, feats, tf, prof = CONFIGS[c]
        on = [0] if "no_intrinsics" in feats else [2] + [FEAT[x] for x in tf.split(",") if x]
        used = set()
        for b in bins:
            o = subprocess.run(["nm", "-C", "--defined-only", dirs[c] + b], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors="replace")
            used |= {ISA.get(m, 99) for m in re.findall(r"core_arch::x86::([a-z0-9_]+)::_mm", o)}
        return ("Isa", ",".join(map(str, on)), ",".join(map(str, sorted(used) or [-1])), ([c], " ".join(map(str, sorted(used)))))
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, [c for c in dirs if dirs[c] and CONFIGS[c][3] == "dev"]))

def sensitivity(module, events, scratch, classes, timeout):
    """development aid (VERIF_SENS=1): corrupt recorded results and report, per operation, how many corruptions the specification rejects"""
    import random
    rnd = random.Random(7)
    bad = []
    for o, a, r, x in events:
        if not r or rnd.random() > 0.5: continue
        w = [int(v) for v in r.split(",")]
        k = rnd.randrange(len(w)); kind = rnd.randrange(4)
        u = w[k] & 0xFFFFFFFF
        small = u < 0x10000 or u > 0xFFFF0000
        if os.environ["VERIF_SENS"] != "1":                                    # one bit of the significand only
            if small or (u & 0x7F800000) in (0, 0x7F800000): continue
            n = u ^ (1 << int(os.environ["VERIF_SENS"]))
        elif kind == 0: n = u ^ 0x80000000 if not small else u ^ 1
        elif kind == 1: n = u ^ (1 << (rnd.randrange(10, 20))) if not small else u ^ 1
        elif kind == 2: n = w[rnd.randrange(len(w))] & 0xFFFFFFFF
        else: n = 0 if u else 0x3F800000
        if n == u: continue
        w[k] = signed(n)
        bad.append((o, a, ",".join(map(str, w)), (kind, k)))
    st, rej = validate(module, bad, scratch, classes, timeout)
    rej = set(rej); tab = {}
    for i, e in enumerate(bad, 1):
        t = tab.setdefault(e[0], {}).setdefault("word %d" % e[3][1], [0, 0]); t[1] += 1; t[0] += i in rej
    for o in sorted(tab):
        tot = [sum(v[0] for v in tab[o].values()), sum(v[1] for v in tab[o].values())]
        weak = ["%s:%d%%" % (w, 100 * v[0] // v[1]) for w, v in sorted(tab[o].items()) if v[0] * 2 < v[1]]
        log("  sens %-36s %d/%d = %d%%  %s" % (o, tot[0], tot[1], 100 * tot[0] // max(1, tot[1]), " ".join(weak)))

# ------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = ROOT + "/known-findings.json"
    for k in json.load(open(p))["findings"] if os.path.exists(p) else []:
        if k["property"] == prop: out.append(k)
    return out
def matches(k, op, args, cfgs):
    return k["op"] == op and (k.get("args") is None or " ".join(map(str, k["args"])) == args) and (not k.get("configs") or set(cfgs) <= set(k["configs"]))

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = json.load(open(ROOT + "/bin/props.json"))[prop]
    scale = int(os.environ.get("VERIF_SCALE", P["scale"][tier]))
    rounds = int(os.environ.get("VERIF_ROUNDS", P["rounds"][tier]))
    tmo = 800 if tier == "quick" else 6 * 3600
    scratch = "%s/run/%s-%d" % (BUILD, prop, os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        return run(prop, P, tier, seed, scale, rounds, tmo, scratch, t0)
    except Tool as e:
        print("TOOL-ERROR %s: %s" % (prop, e)); return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(prop, P, tier, seed, scale, rounds, tmo, scratch, t0):
    classes = build_java()
    nold, nfresh = dictionary(scratch + "/dict.json")
    configs = list(CONFIGS) if P.get("all_configs") else [c for c in CONFIGS if c not in SPECIAL]
    bins = sorted({p["bin"] for p in P["parts"]})
    if P.get("isa"): bins = sorted(os.path.basename(f)[:-3] for f in glob.glob(ROOT + "/harness/src/bin/*.rs"))
    states = trans = 0
    models = []
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(build, bins, configs)
        fg = [ex.submit(gen, prop, p, scratch, classes, seed, scale, tier, tmo) for p in P["parts"]]
        def model(m):
            name = m["module"]
            cfg = open("%s/%s" % (SPEC, m.get("cfg", name + ".cfg"))).read()
            if tier == "thorough" and m.get("thorough_cfg"): cfg = open(SPEC + "/" + m["thorough_cfg"]).read()
            rc, out = tlc(name, cfg, scratch, classes, {"GEN_SEED": str(seed), "GEN_SCALE": "1", "GEN_DICT": scratch + "/dict.json", "GEN_PROP": prop}, tmo, workers=4, extra=m.get("extra", ()))
            if m.get("plain"):          # the same model without the Java evaluation has to print the same
                os.rename("%s/tlc-%s" % (scratch, name), "%s/tlc-%s-java" % (scratch, name))
                rc2, out2 = tlc(name, cfg, scratch, None, {}, tmo, workers=4)
                pick = lambda o: [l for l in o.splitlines() if l.startswith("<<") or l.startswith(" ")]
                if rc or rc2 or not pick(out) or pick(out) != pick(out2): raise Tool("number layer: Java and plain TLA+ evaluation differ\n" + trim(out2))
                log("  model %s: %d lines agree with and without the Java evaluation" % (name, len(pick(out))))
                return dict(model=name, states_generated=0, distinct_states=0, compared_lines=len(pick(out)))
            if rc or "No error has been found" not in out: raise Tool("design model %s failed\n%s" % (name, trim(out)))
            st = stats(out)
            log("  model %s: %d states" % (name, st[1]))
            return dict(model=name, states_generated=st[0], distinct_states=st[1])
        fm = [ex.submit(model, m) for m in P.get("models", []) if m.get("tier", tier) == tier]
        dirs = fb.result()
        configs = [c for c in configs if dirs[c]]
        log("  built in %.1fs" % (time.time() - t0))
        scens = [f.result() for f in fg]
        models = [f.result() for f in fm]
    for m in models:
        states += m["distinct_states"]; trans += m["states_generated"]
    viol, kf = [], []
    nev = nexec = 0
    samples, ops = [], {}
    nscen = 0
    for rnd in range(rounds):
        if rnd:                              # further rounds draw new scenarios
            with cf.ThreadPoolExecutor(4) as ex:
                scens = list(ex.map(lambda p: gen(prop, p, scratch, classes, seed + 7919 * rnd, scale, tier, tmo), P["parts"]))
        nscen += sum(map(len, scens))
        for part, sc in zip(P["parts"], scens):
            path = "%s/scen-%s.txt" % (scratch, part["gen"])
            lines = ["%s %s" % (o, " ".join(map(str, a))) if a else o for o, a in sc]
            open(path, "w").write("\n".join(lines) + "\n")
            t = time.time()
            with cf.ThreadPoolExecutor(8) as ex:
                res = dict(zip(configs, ex.map(lambda c: replay(dirs[c] + part["bin"], path, len(sc), "%s/out-%s-%s" % (scratch, part["gen"], c), 120 if tier == "quick" else 1200), configs)))
            log("  replayed in %.1fs" % (time.time() - t))
            events, crashed = [], []
            for k, (o, a) in enumerate(sc):
                g = {}
                for c in configs: g.setdefault(res[c][k], []).append(c)
                args = ",".join(map(str, a))
                ops[o] = ops.get(o, 0) + 1
                for r, cs in g.items():
                    if r == "S": continue
                    nexec += len(cs)
                    events.append((o, args, "" if r in "PX" else r.replace(" ", ","), (cs, r)))
            if os.environ.get("VERIF_SENS"): sensitivity(part["module"], events, scratch, classes, tmo)
            st, rej = validate(part["module"], events, scratch, classes, tmo)
            states += st[1]; trans += st[0]; nev += len(events)
            for n in rej:
                o, a, r, (cs, raw) = events[n - 1]
                aa = a.replace(",", " ")
                hit = next((k for k in known(prop) if matches(k, o, aa, cs)), None)
                (kf if hit else viol).append((o, aa, raw, cs, part, hit))
            step = max(1, len(events) // 3)
            for e in events[::step][:3]: samples.append(dict(op=e[0], args=e[1][:300], result=e[2][:300], configs=e[3][0]))
        if viol: break
    if P.get("isa"):
        events = isa_events(dirs, bins)
        st, rej = validate("Isa", events, scratch, classes, tmo)
        states += st[1]; trans += st[0]; nev += len(events); ops["Isa"] = len(events)
        for n in rej: viol.append(("Isa", events[n - 1][1], events[n - 1][3][1], events[n - 1][3][0], dict(bin="", module="Isa"), None))
    for k in known(prop):
        n = sum(1 for x in kf if x[5] is k)
        print("KNOWN-FINDING: property=%s %s (%d events this run)" % (prop, k["what"], n))
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], wall_s=round(time.time() - t0, 1), violations=len(viol),
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=len(configs) * len(P["parts"]), events_validated=nev,
                            implementation_calls=nexec, scenarios=nscen, rounds=rnd + 1, operations=ops, configurations=configs, design_models=models,
                            known_finding_events=len(kf), source_literals=dict(baseline=nold, new=nfresh), samples=samples),
              assumptions=P.get("assumptions", []))
    json.dump(ev, open("%s/evidence/%s.json" % (ROOT, prop), "w"), indent=1)
    if viol:
        rd = "%s/replay" % BUILD
        os.makedirs(rd, exist_ok=True)
        rp = "%s/%s-%s-%d.json" % (rd, prop, tier, seed)
        byop = {}
        for v in viol: byop.setdefault(v[0], []).append(v)
        first = [x for o in byop for x in byop[o][:5]]
        json.dump(dict(property=prop, total=len(viol), by_operation={o: len(v) for o, v in byop.items()},
                       how="harness binary <bin> of configuration <configs> fed a file with the line 'op args' (see bin/replay.py)",
                       events=[dict(op=o, args=a, result={"P": "panic", "X": "crash or hang"}.get(r, r), configs=cs, bin=p["bin"], module=p["module"]) for o, a, r, cs, p, _ in first]), open(rp, "w"), indent=1)
        for o, v in sorted(byop.items()):
            log("  rejected: %s x%d, e.g. args %s -> %s in %s" % (o, len(v), str(v[0][1])[:600], str(v[0][2])[:600], ",".join(v[0][3])))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s tier=%s events=%d calls=%d states=%d wall=%.1fs" % (prop, tier, nev, nexec, states, time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
