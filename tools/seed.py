#!/usr/bin/env python3
"""Development aid: confirms planted bugs (seeded/*), and runs the checks against them.
  seed.py confirm ID...   in a scratch copy: applies, builds, stable tests pass, demo 0 clean / nonzero patched
  seed.py check ID...     applies the patch to /repo, runs the check of its property, undoes it
No check uses this file."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
  CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PATH="/root/.cargo/bin:" + os.environ["PATH"])
def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def confirm(i, R):
    d = os.path.join(S, i)
    sh(["git", "checkout", "-q", "--", "."], R)
    rc, o = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], R)
    if rc: return "does not apply: " + o
    build = ["cargo", "test", "--workspace", "--no-run", "--offline"]
    def demo(tag):
        t = f"/tmp/demo.{i}.{os.getpid()}"
        shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        for f in ("patch.diff", "meta.json"): os.path.exists(f"{t}/{f}") and os.remove(f"{t}/{f}")
        try: r = sh(["bash", f"{t}/demo.sh"], R, 300)
        except subprocess.TimeoutExpired: r = (None, "timeout")
        shutil.rmtree(t, ignore_errors=True)
        return r
    sh(["bash", "-c", "find src -name '*.rs' -exec touch {} +"], R)
    rc, o = sh(build, R)
    if rc: return "clean build fails"
    rc, o = demo("clean")
    if rc != 0: return f"demo on clean: {rc} {o[-800:]}"
    sh(["git", "apply", os.path.join(d, "patch.diff")], R)
    sh(["bash", "-c", "find src -name '*.rs' -exec touch {} +"], R)
    rc, o = sh(build, R)
    if rc: return "patched build fails: " + o[-1500:]
    rc, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], R)
    if rc: return "tests fail: " + "\n".join(l for l in o.splitlines() if "FAILED" in l or "error" in l)[:800]
    rc, o = demo("patched")
    sh(["git", "checkout", "-q", "--", "."], R)
    if rc == 0: return "demo passes with the patch"
    return "ok: " + (o.strip().splitlines() or ["(no output)"])[-1][:160]
def check(i):
    d = os.path.join(S, i); m = json.load(open(os.path.join(d, "meta.json")))
    rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], "/repo")
    if rc: return "does not apply"
    try:
        e = dict(env); e.pop("RUSTUP_TOOLCHAIN")
        p = subprocess.run(["./check.sh", m["property"]], cwd=V, env=dict(e, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        sh(["git", "checkout", "-q", "--", "."], "/repo")
    o = p.stdout.decode(errors="replace").strip().splitlines()
    if p.returncode == 1: return "CAUGHT  " + next((l for l in o if l.startswith("observed")), "")[:150]
    return f"{'MISSED' if p.returncode == 0 else 'ERROR'}  rc={p.returncode} {o[-1][:200] if o else ''}"
ids = sys.argv[2:] or sorted(os.listdir(S))
if sys.argv[1] == "confirm":
    R = "/tmp/seedrepo"
    if not os.path.isdir(R): subprocess.run(["cp", "-a", "/repo", R])
    sh(["git", "fetch", "-q", "/repo"], R)
    for i in ids: print(i, confirm(i, R), flush=True)
else:
    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        print(i, m["property"], check(i), flush=True)
