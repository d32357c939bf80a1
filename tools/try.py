#!/usr/bin/env python3
"""Runs the checks against a changed copy of /repo, under /tmp.

  try.py ID (PATCH | revert:COMMIT | none) [PROP...]

Prints, per property, whether its quick check is quiet or raises an alarm. For development only.
"""
import importlib.util, os, re, shutil, subprocess, sys, time

ID, what, props = sys.argv[1], sys.argv[2], sys.argv[3:]
props = props or ["C%02d" % i for i in range(1, 17)]
top = "/tmp/try/" + ID
shutil.rmtree(top, ignore_errors=True)
os.makedirs(top)
repo, ver = top + "/repo", top + "/verif"
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
if what.startswith("revert:"):
    for c in what[7:].split(","):
        subprocess.run(["git", "revert", "--no-edit", "-n", c], cwd=repo, check=True)
elif what != "none":
    subprocess.run(["git", "apply", os.path.abspath(what)], cwd=repo, check=True)
shutil.copytree("/verif", ver, ignore=shutil.ignore_patterns("target", ".git", "replays", "evidence", "seeded"))
for c in ("sim", "race"):
    f = "%s/%s/Cargo.toml" % (ver, c)
    s = open(f).read().replace('"/repo"', '"%s"' % repo)
    open(f, "w").write(s)
spec = importlib.util.spec_from_file_location("check", ver + "/check.py")
check = importlib.util.module_from_spec(spec)
spec.loader.exec_module(check)
os.makedirs(check.TARGET, exist_ok=True)
real_log = check.log
lines = []
check.log = lambda *a: lines.append(" ".join(map(str, a)))
built, real_build = set(), check.build


def build(prop=None):
    if (prop == "C16") not in built:
        real_build(prop)
        built.add(prop == "C16")
    check.WIDE = "wide-" if prop == "C16" else ""


check.build = build
try:
    build(props[0])
except SystemExit:
    print(ID, "DOES NOT BUILD", "\n".join(lines)[-600:])
    shutil.rmtree(top, ignore_errors=True)
    sys.exit(2)
os.environ.setdefault("VERIF_SEED", "1")
if os.environ.get("TRY_SCALE"):
    k = float(os.environ["TRY_SCALE"])
    check.DEFAULT = (int(check.DEFAULT[0] * k), 0)
res = {}
for p in props:
    del lines[:]
    t = time.time()
    try:
        rc = check.check(p, "quick")
    except SystemExit as e:
        rc = e.code
    v = next((l for l in lines if l.startswith("violated")), "")[:150]
    res[p] = rc
    print("%-22s %s %s %5.1f s %s" % (ID, p, {0: "quiet", 1: "CAUGHT"}.get(rc, "ERROR %s" % lines[-1:]), time.time() - t, v), flush=True)
print("%-22s caught by: %s" % (ID, " ".join(p for p in props if res[p] == 1)), flush=True)
if os.path.isdir(ver + "/replays"):
    shutil.rmtree("/tmp/tryreplays/" + ID, ignore_errors=True)
    shutil.copytree(ver + "/replays", "/tmp/tryreplays/" + ID)
shutil.rmtree(top, ignore_errors=True)
