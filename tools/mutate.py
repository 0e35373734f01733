#!/usr/bin/env python3
"""Development helper (no check uses it): random one-line mutants of /repo's sources in a scratch copy.
   mutate.py WORKDIR SEED COUNT [FILE-REGEX]
Each mutant that compiles and passes the repository's own tests is run against the quick checks of the properties whose
operations include the mutated function; survivors are printed (SURVIVED) to be looked at by hand: equivalent, or missed."""
import glob, json, os, random, re, subprocess, sys, shutil, time
wd, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
filt = sys.argv[4] if len(sys.argv) > 4 else "."
rnd = random.Random(seed)
os.makedirs(wd, exist_ok=True)
R, V = wd + "/repo", wd + "/verif"
if not os.path.exists(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
if not os.path.exists(V):
    subprocess.run(["git", "clone", "-q", "/verif", V], check=True)
    for f, a, b in (("bin/check.py", 'REPO = "/repo"', 'REPO = "%s"' % R), ("harness/Cargo.toml", '"/repo"', '"%s"' % R)):
        t = open(V + "/" + f).read(); assert a in t, f
        open(V + "/" + f, "w").write(t.replace(a, b))
    shutil.rmtree(V + "/seeded", ignore_errors=True)
os.makedirs(V + "/evidence", exist_ok=True)
ops = {}
for f in glob.glob("/verif/evidence/C*.json"):
    e = json.load(open(f))
    for o in e["coverage"]["operations"]: ops.setdefault(re.sub(r"\(.*", "", o), set()).add(e["property"])
COLL = ["C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34"]
PAIRS = [("_mm_add_ps", "_mm_sub_ps"), ("_mm_mul_ps", "_mm_add_ps"), ("_mm_and_ps", "_mm_andnot_ps"), ("_mm_min_ps", "_mm_max_ps"), ("_mm_unpacklo_ps", "_mm_unpackhi_ps"),
 ("_mm_cmpgt_ps", "_mm_cmpge_ps"), ("_mm_cmplt_ps", "_mm_cmple_ps"), ("_mm_cmpeq_ps", "_mm_cmpneq_ps"), ("_mm_or_ps", "_mm_xor_ps"), ("XMVectorAdd", "XMVectorSubtract"),
 ("XMVectorGreater(", "XMVectorGreaterOrEqual("), ("XMVectorLess(", "XMVectorLessOrEqual("), ("XMVectorMin(", "XMVectorMax("), ("XMVectorSplatX", "XMVectorSplatY"), ("XMVectorSplatZ", "XMVectorSplatW"),
 ("XMVectorGetX", "XMVectorGetY"), ("XMVector3Dot", "XMVector4Dot"), ("XMVector3", "XMVector4"), ("XMVectorNegate", "XMVectorAbs"), ("g_XMOne", "g_XMNegativeOne"), ("g_XMMaskXY", "g_XMMask3"), ("XM_FMADD_PS", "XM_FNMADD_PS"),
 ("XMVectorMultiplyAdd", "XMVectorNegativeMultiplySubtract"), ("XMVector3AnyTrue", "XMVector3AllTrue"), ("XMVectorAndInt", "XMVectorOrInt"), ("XMVectorOrInt", "XMVectorXorInt"), (" && ", " || "), (" < ", " <= "), (" > ", " >= "), (" == ", " != "), (" + ", " - "), (" * ", " / "), ("INTERSECTS", "CONTAINS"), ("DISJOINT", "INTERSECTS"), ("true", "false"), ("cosf", "sinf"), ("XMScalarSin(", "XMScalarCos("), ("fSinAngle", "fCosAngle"), ("XMQuaternionMultiply", "XMVectorMultiply")]
COMM = re.compile(r"(XMVectorAdd|XMVectorMultiply|XMVectorOrInt|XMVectorAndInt|XMVector\dDot|XMQuaternionDot|XMVectorMin|XMVectorMax|XMVector\dEqual(Int)?|_mm_(add|mul|and|or|xor|min|max|cmpeq)_[ps]s)$")
def collprops(n):
    if "Ray" in n: return ["C29"]
    if "Plane" in n and n.startswith("Intersects") or n == "ContainedBy" or n.startswith("FastIntersect"): return ["C30", "C28"]
    if n == "IntersectsTriangle": return ["C34", "C27"]
    if n.startswith("Intersects") or n.startswith("PointOn"): return ["C27", "C34"]
    if n.startswith("Contains"): return ["C28"]
    if n.startswith("Create") or "Eigen" in n or n == "SolveCubic": return ["C31", "C33"]
    if n.startswith("Transform"): return ["C32"]
    if n.startswith("Get"): return ["C33"]
    return COLL
def functions(lines):
    """line -> enclosing function; None in tests, comments"""
    out, cur, test = [], None, False
    for l in lines:
        m = re.match(r"\s*(?:pub(?:\([a-z]+\))? )?(?:unsafe )?(?:default )?fn (\w+)", l)
        if re.match(r"\s*#\[test\]|\s*#\[cfg\(test\)\]", l): test = True
        if m:
            cur = None if (test or m.group(1).startswith("test")) else m.group(1); test = False
        out.append(cur)
    return out
def mutate(l):
    cands = []
    for a, b in PAIRS:
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(re.escape(x), l): cands.append((m.start(), x, y))
    for m in re.finditer(r"\[([0-3])\]", l): cands.append((m.start(), m.group(0), "[%d]" % ((int(m.group(1)) + rnd.randrange(1, 4)) % 4)))
    for m in re.finditer(r"\.([xyzw])\b", l): cands.append((m.start(), m.group(0), "." + rnd.choice("xyz")))
    for m in re.finditer(r"_MM_SHUFFLE\((\d), (\d), (\d), (\d)\)", l):
        g = [int(x) for x in m.groups()]; k = rnd.randrange(4); g[k] = (g[k] + rnd.randrange(1, 4)) % 4
        cands += [(m.start(), m.group(0), "_MM_SHUFFLE(%d, %d, %d, %d)" % tuple(g))] * 3
    for m in re.finditer(r"(?<![\w.])(\d+\.\d+(?:e-?\d+)?)", l):
        v = float(m.group(1)); n = rnd.choice([v * 1.01 if v else 0.25, -v if v else 1.0, v + 0.5, v * 0.999 if v else 0.001])
        cands.append((m.start(), m.group(1), repr(float(n)) if n >= 0 else "(%r)" % n))
    if re.match(r"\s*[\w.\[\]*]+ [-+*/]?= [^=].*;\s*$", l) and "let" not in l and not re.search(r"= 0\.0;|XMPlaneNormalize|XMVectorZero\(\);", l): cands.append((0, l, re.match(r"\s*", l).group(0) + "\n"))
    for m in re.finditer(r"\((\w+), (\w+)\)", l):
        if m.group(1) != m.group(2) and not COMM.search(l[:m.start()]): cands.append((m.start(), m.group(0), "(%s, %s)" % (m.group(2), m.group(1))))
    if not cands: return None
    i, x, y = rnd.choice(cands)
    n = l[:i] + y + l[i + len(x):]
    return n if n != l else None
SRC = [f for f in ("vector.rs", "matrix.rs", "misc.rs", "convert.rs", "packed_vector.rs", "collision.rs", "lib.rs", "globals.rs") if re.search(filt, f)]
text = {f: open("%s/src/%s" % (R, f)).read().splitlines(True) for f in SRC}
fn = {f: functions(text[f]) for f in SRC}
sites = [(f, i) for f in SRC for i, l in enumerate(text[f]) if fn[f][i] and not re.match(r"\s*(//|#\[|debug_assert)", l) and "{" != l.strip() and "pub use" not in l]
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=wd + "/target", RUSTFLAGS="-A warnings", VERIF_SEED="1", VERIF_TIER="quick")
def sh(cmd, t, cwd=R):
    try: p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, errors="replace")
    except subprocess.TimeoutExpired: return 124, ""
    return p.returncode, p.stdout + p.stderr
stat = dict(tried=0, nobuild=0, tests=0, caught=0, survived=0)
while stat["tried"] < count:
    f, i = rnd.choice(sites)
    l = text[f][i]; n = mutate(l)
    if n is None: continue
    stat["tried"] += 1
    path = "%s/src/%s" % (R, f)
    t = list(text[f]); t[i] = n
    open(path, "w").write("".join(t))
    try:
        rc, o = sh(["cargo", "test", "--offline", "--lib", "-q"], 300)
        if rc:
            k = "nobuild" if "could not compile" in o else "tests"
            stat[k] += 1; continue
        name = fn[f][i]
        props = sorted(ops.get(name, ()))
        if f == "collision.rs": props = collprops(name)
        if not props: props = ["C35"] if name in ("add", "sub", "mul", "div", "neg", "from", "into", "eq", "add_assign", "sub_assign", "mul_assign", "div_assign", "as_ref", "as_mut", "set") else sorted({"C01", "C02", "C11", "C16", "C20", "C23"})
        props = [p for p in props if p not in ("C36", "C37")] or props
        hit = None
        for p in props:
            rc, o = sh(["python3", V + "/bin/check.py", p, "quick"], 900, V)
            if rc == 1: hit = p; break
            if rc == 2: hit = "TOOL " + o[-300:]; break
        tag = "caught" if hit and not hit.startswith("TOOL") else "survived"
        stat[tag] += 1
        print("%s %s:%d %s [%s] %s\n   - %s\n   + %s" % (tag.upper(), f, i + 1, name, ",".join(props), hit or "", l.strip(), n.strip()), flush=True)
    finally:
        open(path, "w").write("".join(text[f]))
print(json.dumps(stat))
