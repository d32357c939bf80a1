#!/usr/bin/env python3
"""Confirms planted bugs: seedcheck.py DIR...

For each: the patch applies to /repo's HEAD, changes only lines of the original repository, builds,
passes the stable tests, and demo.sh passes without and fails with it. Works in copies under /tmp.
"""
import json, os, re, shutil, subprocess, sys

BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]


def demo(repo, d):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("CARGO_TARGET_DIR", None)
    # Laid elsewhere, without patch and meta, like in the final check.
    at = "/tmp/seedcheck/laid"
    shutil.rmtree(at, ignore_errors=True)
    shutil.copytree(d, at, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    p = subprocess.run(["bash", at + "/demo.sh"], cwd=repo, env=env, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]


def tests(repo):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_TARGET_DIR=repo + "/target")
    p = subprocess.run("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", shell=True, cwd=repo, env=env,
                       capture_output=True, text=True, timeout=600)
    out = p.stdout + p.stderr
    bad = [l for l in out.splitlines() if l.startswith("error") or "FAILED" in l or "... failed" in l]
    n = sum(int(m) for m in re.findall(r"(\d+) passed", out))
    return n, bad[:6]


ok = True
for d in sys.argv[1:]:
    d = os.path.abspath(d)
    name = os.path.basename(d)
    json.load(open(d + "/meta.json"))
    repo = "/tmp/seedcheck/repo"
    shutil.rmtree("/tmp/seedcheck", ignore_errors=True)
    os.makedirs("/tmp/seedcheck")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    why = []
    rc, out = demo(repo, d)
    if rc != 0:
        why.append("demo fails on the unchanged tree: " + out)
    p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=repo, capture_output=True, text=True)
    if p.returncode:
        why.append("does not apply: " + p.stderr)
    else:
        old = [l for l in open(d + "/patch.diff") if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        base = subprocess.run("git -C /repo grep -h '' %s -- src" % BASE, shell=True, capture_output=True, text=True).stdout.splitlines()
        if old and not any(l[1:].rstrip("\n") in base for l in old):
            why.append("changes no line of the original")
        n, bad = tests(repo)
        if n < 100 or bad:
            why.append("tests: %d passed, %s" % (n, bad))
        rc, out = demo(repo, d)
        if rc == 0:
            why.append("demo passes with the change")
        else:
            print("   demo:", out.strip().splitlines()[-1][:150] if out.strip() else rc)
    print(name, "counts" if not why else "DOES NOT COUNT: " + "; ".join(why), flush=True)
    ok &= not why
shutil.rmtree("/tmp/seedcheck", ignore_errors=True)
sys.exit(not ok)
