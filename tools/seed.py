#!/usr/bin/env python3
"""Development helper for planted bugs (no check uses it).
   seed.py make FILE.py     FILE.py defines SEEDS = [dict(id, property, config, needs, breaks, edits=[(file, old, new[, occurrence])], demo)]
   seed.py verify ID...     confirm in /repo (applied and undone): demo 0 -> builds, stable tests pass, demo != 0, check verdict"""
import json, os, subprocess, sys, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = ROOT + "/seeded"
CFG = {"default": ("", ""), "no_intrinsics": ("no_intrinsics", ""), "sse3": ("", "+sse3"), "sse4.1": ("", "+sse3,+sse4.1"), "avx": ("", "+sse3,+sse4.1,+avx"),
       "f16c": ("", "+sse3,+sse4.1,+avx,+f16c"), "fma": ("", "+sse3,+sse4.1,+avx,+f16c,+fma"), "avx2": ("", "+sse3,+sse4.1,+avx,+f16c,+fma,+avx2")}
DEMO = '''#!/bin/bash
# builds demo.rs against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 99
mkdir -p "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
directx_math = { path = "$repo", default-features = true@FEAT@ }
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTFLAGS="-A warnings -C target-cpu=x86-64@TF@" PATH=/root/.cargo/bin:$PATH
(cd "$d" && timeout 200 cargo run --offline -q); rc=$?
rm -rf -- "${d:?}"
exit $rc
'''
def git(*a, **k): return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True, **k)
def make(path):
    for s in runpy.run_path(path)["SEEDS"]:
        assert not git("status", "--porcelain", "-uno").stdout.strip(), "dirty /repo"
        try:
            for e in s["edits"]:
                f, old, new = e[:3]
                p = "/repo/" + f; t = open(p).read(); n = t.count(old)
                occ = e[3] if len(e) > 3 else None
                assert n >= 1, (s["id"], "not found", old)
                assert n == 1 or occ is not None, (s["id"], "ambiguous", n, old)
                i = -1
                for _ in range(1 if occ is None else occ): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
                open(p, "w").write(t)
            diff = git("diff").stdout
        finally:
            git("checkout", "--", ".")
        d = "%s/%s" % (SD, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        feat, tf = CFG[s.get("config", "default")]
        open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", ', features = ["%s"]' % feat if feat else "").replace("@TF@", " -C target-feature=" + tf if tf else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
def demo(i): return subprocess.run(["bash", "%s/%s/demo.sh" % (SD, i)], cwd="/repo", capture_output=True, text=True)
def verify(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("passed") or base.get("stable") or next(v for v in base.values() if isinstance(v, list)))
    for i in ids:
        assert not git("status", "--porcelain", "-uno").stdout.strip(), "dirty /repo"
        prop = json.load(open("%s/%s/meta.json" % (SD, i)))["property"]
        c = demo(i)
        if c.returncode: print(i, "BAD: demo fails on the clean tree:", (c.stdout + c.stderr)[-600:]); continue
        r = git("apply", "%s/%s/patch.diff" % (SD, i))
        if r.returncode: print(i, "BAD: does not apply", r.stderr); continue
        try:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            if b.returncode: print(i, "BAD: build", b.stderr[-500:]); continue
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], capture_output=True)
            missing = stable - set(json.load(open("/tmp/seedtest.json"))["passed"])
            if missing: print(i, "BAD: tests fail:", sorted(missing)[:5]); continue
            c = demo(i)
            if not c.returncode: print(i, "BAD: demo passes with the patch"); continue
            k = subprocess.run(["python3", ROOT + "/bin/check.py", prop, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
            print(i, prop, "CAUGHT" if k.returncode == 1 else "MISSED rc=%d" % k.returncode, "| demo:", (c.stdout + c.stderr).strip().splitlines()[-1][:100] if (c.stdout + c.stderr).strip() else "", "|", [l for l in k.stderr.splitlines() if "rejected:" in l][:1])
        finally:
            git("checkout", "--", ".")
            sys.stdout.flush()
if sys.argv[1] == "make": make(sys.argv[2])
else: verify(sys.argv[2:] or sorted(os.listdir(SD)))
