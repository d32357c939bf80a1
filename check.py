#!/usr/bin/env python3
"""Decides a property by simulation.

  check.py PROP TIER        build, search, write the evidence; exit 0, 1 (violation) or 2 (no answer)
  check.py replay FILE      run a replay file again, on the present tree
  check.py setup            build
  check.py determinism      show that a seed is one execution

See DESIGN.md.
"""
import json, math, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(HERE, "target")
EXIT_VIOL, EXIT_HARNESS = 77, 70
CORES = 8


def log(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k.startswith("RUST"):
            del e[k]
    e.update(
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
        HOME="/root",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        RUSTC_BOOTSTRAP="1",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUST_BACKTRACE="0",
    )
    return e


def stop(msg):
    log("NO ANSWER: " + msg)
    sys.exit(2)


# ---- building ----

WIDE = ""  # with the large catalogue of tuples, which takes long to build
STAND_IN = False  # the library does not compile with no_std: the default build, in release mode, takes its place


def cargo_build(d, release, features):
    for sub in ("debug", "release"):
        fp = os.path.join(d, sub, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith("trees-") or n.startswith("sim-"):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", d] + (["--release"] if release else [])
    if features:
        cmd += ["--features", ",".join(features)]
    return subprocess.Popen(cmd, cwd=SIM, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(prop=None):
    """Both builds: the library as shipped in debug mode, and with no_std in release mode."""
    global WIDE, STAND_IN
    WIDE = "wide-" if prop == "C16" else ""
    STAND_IN = False
    wide = ["wide"] if WIDE else []
    std = cargo_build(os.path.join(TARGET, WIDE + "std"), False, wide)
    no_std = cargo_build(os.path.join(TARGET, WIDE + "no_std"), True, wide + ["no_std"])
    out, out2 = std.communicate()[0], no_std.communicate()[0]
    if std.returncode:
        log(out[-4000:])
        stop("the std build failed")
    if no_std.returncode:
        p = cargo_build(os.path.join(TARGET, WIDE + "rel"), True, wide)
        out = p.communicate()[0]
        if p.returncode:
            log(out[-4000:])
            stop("the release build failed")
        log(out2[-1500:])
        log("note: the library does not compile with the feature no_std; the default build is used in its place")
        STAND_IN = True


def binary(v):
    d = "rel" if STAND_IN and v == "no_std" else v
    return os.path.join(TARGET, WIDE + d, "debug" if v == "std" else "release", "sim")


# ---- running ----

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def launch(v, args, **kw):
    e = env()
    e.update(kw.pop("more_env", {}))
    return subprocess.Popen([binary(v)] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            env=e, preexec_fn=limits, **kw)


def classify(rc, out):
    """(class, message) of a violation, None for none; stops if there is no answer."""
    if rc == 0:
        return None
    if rc == EXIT_VIOL:
        m = re.findall(r"^VIOL (\S+) step (\d+): (.*)$", out, re.M)
        if m:
            return m[-1][0], m[-1][2]
    if rc == EXIT_HARNESS:
        m = re.findall(r"^HARNESS (.*)$", out, re.M)
        stop("harness: " + (m[-1] if m else out[-500:]))
    if rc in (-signal.SIGVTALRM, "hang"):
        return "hang", "a call does not return"
    if rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGTRAP):
        return "crash", "the process died of %s: %s" % (signal.Signals(-rc).name, " ".join(out[-300:].split()))
    stop("a worker ended with %s: %s" % (rc, out[-500:]))


def run(v, args, timeout=240, more_env=None):
    p = launch(v, args, more_env=more_env or {})
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        rc = "hang"
    return rc, out.decode("utf-8", "replace")


# ---- replay files ----

class Step:
    def __init__(self, depth, line):
        parts = line.split(" ! ")
        head = parts[0].split()
        self.depth, self.id, self.actor, self.op = depth, int(head[0]), head[1], head[2]
        self.args = [int(x) for x in head[3:]]
        self.faults = parts[1:]
        self.nest = []

    def lines(self):
        s = "> " * self.depth + " ".join([str(self.id), self.actor, self.op] + [str(a) for a in self.args])
        out = [" ! ".join([s] + self.faults)]
        for n in self.nest:
            out += n.lines()
        return out

    def copy(self):
        c = object.__new__(Step)
        c.__dict__.update(self.__dict__)
        c.args, c.faults, c.nest = list(self.args), list(self.faults), [n.copy() for n in self.nest]
        return c


def parse(text):
    head, steps, body = {}, [], False
    for line in text.splitlines():
        if line.startswith("#"):
            continue
        if not body:
            if " " in line:
                k, x = line.split(" ", 1)
                head[k] = x
            else:
                body = True
            continue
        if line.startswith("VIOL ") or line.startswith("HARNESS "):
            break
        depth = 0
        while line.startswith("> "):
            depth, line = depth + 1, line[2:]
        if not re.match(r"^\d+ c\d+ \w+", line):
            continue
        st = Step(depth, line)
        lst = steps
        for _ in range(depth):
            lst = lst[-1].nest
        lst.append(st)
    return head, steps


def compose(head, steps):
    out = ["%s %s" % kv for kv in head.items()] + [""]
    for s in steps:
        out += s.lines()
    return "\n".join(out) + "\n"


class Case:
    """Something that can be run and fails or holds."""

    def __init__(self, head, steps, tmp):
        self.head, self.steps, self.tmp = head, steps, tmp
        self.runs = 0

    def test(self, steps, head=None):
        self.runs += 1
        head = head or self.head
        f = os.path.join(self.tmp, "try.txt")
        with open(f, "w") as o:
            o.write(compose(head, steps))
        return test_file(f, head)


def hang_env(head):
    return {"SIM_SECONDS": "3"} if head.get("class") == "hang" else {}


def test_file(f, head):
    if head.get("build") == "both":
        res = []
        for v in ("std", "no_std"):
            rc, out = run(v, ["replay", f], more_env=hang_env(head))
            c = classify(rc, out)
            if c:
                return c
            res.append(re.findall(r"^HELD (\w+)", out, re.M)[-1])
        if res[0] != res[1]:
            lines = [run(v, ["replay", f, "lines"])[1].splitlines() for v in ("std", "no_std")]
            why = next(("%r against %r" % (a, b) for a, b in zip(*lines) if a != b), "")
            return "builds-differ", "the std build and the no_std build differ: " + why
        return None
    rc, out = run(head.get("build", "std"), ["replay", f], more_env=hang_env(head))
    return classify(rc, out)


def minimise(case, cls, budget):
    """Delta debugging over steps, nested steps, faults and numbers; the class stays."""
    end = time.time() + budget
    steps = case.steps

    def bad(s, head=None):
        c = case.test(s, head)
        return c is not None and c[0] == cls

    def shrink_list(steps):
        n = 2
        while len(steps) >= 2 and time.time() < end:
            size = max(1, len(steps) // n)
            for i in range(0, len(steps), size):
                cand = steps[:i] + steps[i + size:]
                if time.time() > end:
                    break
                if bad(cand):
                    steps, n = cand, max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(steps), n * 2)
        return steps

    def each(steps, f):
        """Tries single edits: f(step) lists edited copies of a step."""
        for i in range(len(steps)):
            again = True
            while again and time.time() < end:
                again = False
                for c in f(steps[i]):
                    cand = steps[:i] + [c] + steps[i + 1:]
                    if time.time() > end:
                        break
                    if bad(cand):
                        steps, again = cand, True
                        break
        return steps

    def edits(s):
        for i in range(len(s.faults)):
            c = s.copy()
            del c.faults[i]
            if not any("Nest" in f for f in c.faults):
                c.nest = []
            yield c
        for i in range(len(s.nest)):
            c = s.copy()
            del c.nest[i]
            yield c

    def numbers(s):
        for i, a in enumerate(s.args):
            # Names of objects are large or stand for themselves; a wrong guess fails the test.
            for b in (0, 1, a // 2, a - 1):
                if 0 <= b < a:
                    c = s.copy()
                    c.args[i] = b
                    yield c
        for i, f in enumerate(s.faults):
            w = f.split()
            for j, x in enumerate(w):
                if x.isdigit() and int(x) > 0:
                    for b in (0, int(x) - 1):
                        c = s.copy()
                        c.faults[i] = " ".join(w[:j] + [str(b)] + w[j + 1:])
                        yield c
        if s.actor != "c0":
            c = s.copy()
            c.actor = "c0"
            yield c

    while time.time() < end:
        size = len(compose(case.head, steps))
        steps = shrink_list(steps)
        steps = each(steps, edits)
        steps = each(steps, numbers)
        if len(compose(case.head, steps)) == size:
            break
    for k, x in (("cadence", "0"), ("cadence", "1"), ("large", "0"), ("reuse", "0")):
        if case.head.get(k) not in (None, x) and time.time() < end:
            h = dict(case.head)
            h[k] = x
            if bad(steps, h):
                case.head = h
    return steps


# ---- the search ----

PLAN = {  # property: (runs in the quick tier, runs in the thorough tier)
    "C12": (16000, 4000000),
}
DEFAULT = (150000, 20000000)
DEADLINE = {"quick": 90, "thorough": 660}


def first_seed():
    try:
        s = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        s = 1
    return s, (s & 0xFFFFFFFF) << 30


def workers(prop, runs, base, deadline, tmp):
    """(build, seed range, stride) of each worker."""
    res = []
    for i in range(CORES):
        v = "std" if i % 2 == 0 else "no_std"
        if prop == "C14":  # each seed in both builds
            res.append((v, base + i // 2, base + runs, CORES // 2))
        else:
            res.append((v, base + i, base + runs, CORES))
    return res


def search(prop, tier, runs, base, tmp):
    procs = []
    more = {"SIM_HASHES": "1"} if prop == "C14" else {}
    for i, (v, a, b, s) in enumerate(workers(prop, runs, base, 0, tmp)):
        out = open(os.path.join(tmp, "w%d.out" % i), "wb")
        e = env()
        e.update(more)
        p = subprocess.Popen([binary(v), "run", prop, str(a), str(b), str(s), os.path.join(tmp, "w%d" % i), str(DEADLINE[tier])],
                             stdout=out, stderr=subprocess.STDOUT, env=e, preexec_fn=limits)
        procs.append([i, v, p, a, s, os.path.join(tmp, "w%d.out" % i), None])
    end = time.time() + DEADLINE[tier] + 60
    failed = None
    left = list(procs)
    while left:
        time.sleep(0.02)
        for w in list(left):
            rc = w[2].poll()
            if rc is not None:
                left.remove(w)
                w[6] = rc
                if rc != 0 and failed is None:
                    failed = w
        if failed or time.time() > end:
            break
    for w in left:
        w[2].kill()
        w[2].wait()
        if failed is None:
            w[6] = "hang"
            failed = w
    return procs, failed


def tail(path, n=20000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode("utf-8", "replace")


def report(prop, build, seed, cls, msg, tmp, tier):
    """Finds the history of a failed seed, minimises it and writes the replay file."""
    budget = 90 if tier == "quick" else 240
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s-%d.txt" % (prop, build, seed))
    v = "std" if build == "both" else build
    rc, out = run(v, ["trace", prop, seed], more_env={"SIM_SECONDS": "5"} if cls == "hang" else {})
    head, steps = parse(out)
    head.update({"build": build, "class": cls})
    case = Case(head, steps, tmp)
    got = case.test(steps)
    if got is None:
        # The history alone is not enough: name the seed itself.
        head["mode"] = "seed"
        steps = []
        first = classify(rc, out)
        if first:
            cls, msg = first
        note = "the run of the seed itself"
    else:
        cls, msg = got
        case.head["class"] = cls
        n = len(steps)
        steps = minimise(case, cls, budget)
        got = case.test(steps)
        if got:
            msg = got[1]
        head = case.head
        note = "%d of %d steps remain" % (len(steps), n)
    head["class"], head["message"] = cls, " ".join(msg.split())
    with open(path, "w") as o:
        o.write(compose(head, steps))
    log("violated: %s (%s)" % (msg, cls))
    log("seed %d in the %s build; %s; check.py replay %s" % (seed, build, note, path))
    for l in compose(head, steps).splitlines()[:60]:
        log("    " + l)
    return path


def do_replay(path):
    head, steps = parse(open(path).read())
    if head.get("mode") == "miri":
        v = head.get("build", "std")
        if v not in miri_build():
            stop("no Miri")
        g = lambda k: int(head[k])
        got = miri_class(*miri_run(g("miri_seed"), [g("from"), g("to"), g("threads"), g("rounds"), g("objects")], v=v))
        if got is None:
            log("the property holds on this replay")
            return 0
        log("violated: %s (%s)" % (got[1], got[0]))
        log("VIOLATION property=C12 replay=%s" % path)
        return 1
    build(head.get("property"))
    if head.get("mode") == "build":
        got = ("build", "the library does not compile with the feature no_std") if STAND_IN else None
    elif head.get("mode") == "seed":
        rc, out = run(head["build"], ["trace", head["property"], head["seed"]])
        got = classify(rc, out)
    else:
        got = test_file(path, head)
    if got is None:
        log("the property holds on this replay")
        return 0
    log("violated: %s (%s)" % (got[1], got[0]))
    log("VIOLATION property=%s replay=%s" % (head["property"], path))
    return 1


# ---- overlapping threads, in Miri ----

RACE = os.path.join(HERE, "race")
MIRI_DIR = os.path.join(TARGET, "miri")
MIRI_FLAGS = "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.03 -Zmiri-seed=%d"
MIRI_PLAN = {"quick": (4, 30, 150), "thorough": (60, 40, 420)}  # batches per core, scenarios per batch, seconds


def miri_cmd(args, v="std"):
    """Each build has a directory, lest one replaces the other."""
    where = ["--target-dir", MIRI_DIR] if v == "std" else ["--target-dir", MIRI_DIR + "-no_std", "--features", "no_std"]
    return ["cargo", "miri", "run", "--offline", "--quiet"] + where + ["--"] + [str(a) for a in args]


def miri_env(seed):
    e = env()
    e.update(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=MIRI_FLAGS % seed)
    e.pop("RUSTC_BOOTSTRAP")
    return e


def miri_start(seed, args, out, v="std"):
    return subprocess.Popen(miri_cmd(args, v), cwd=RACE, env=miri_env(seed), stdout=out, stderr=subprocess.STDOUT)


def miri_run(seed, args, timeout=300, v="std"):
    p = miri_start(seed, args, subprocess.PIPE, v)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, ""
    return p.returncode, out.decode("utf-8", "replace")


def miri_build():
    """The builds that Miri can run; none if there is no working Miri here."""
    good = []
    for v in ("std",) if STAND_IN else ("std", "no_std"):
        for root, dirs, files in os.walk(MIRI_DIR if v == "std" else MIRI_DIR + "-no_std"):
            if os.path.basename(root) == ".fingerprint":
                for n in dirs:
                    if n.startswith(("trees-", "race-")):
                        shutil.rmtree(os.path.join(root, n), ignore_errors=True)
                dirs[:] = []
        rc, out = miri_run(0, [0, 0], v=v)
        if rc == 0 and "DONE" in out:
            good.append(v)
        else:
            log("Miri is not usable (%s): %s" % (v, out[-600:]))
            break
    return good


def miri_class(rc, out):
    """As classify(), None for no verdict."""
    if rc in (0, None):
        return None
    m = re.findall(r"^VIOL thread step 0: (.*)$", out, re.M)
    if m:
        p = re.findall(r"^PANIC (.*)$", out, re.M)
        return "thread", m[-1] + (" (%s)" % p[-1] if p else "")
    m = re.findall(r"^error: (.*)$", out, re.M)
    for x in m:
        if x.startswith("Undefined Behavior: Data race"):
            return "data-race", re.sub(r"alloc\d+", "the memory", x)
        if x.startswith("Undefined Behavior"):
            return "undefined-behaviour", re.sub(r"alloc\d+", "the memory", x)
        if x.startswith("memory leaked"):
            return "leak", re.sub(r"alloc\d+", "memory", x)
        if "deadlock" in x:
            return "hang", x
        if x.startswith("abnormal termination"):
            return "crash", x
    return None


def miri_search(tier, base, tmp, builds):
    """(violation or None, what was covered)"""
    t0 = time.time()
    batches, size, limit = MIRI_PLAN[tier]
    jobs = [(base + k, base + k * size, base + (k + 1) * size) for k in range(batches * CORES)]
    running, done, items, bad, odd = [], dict.fromkeys(builds, 0), 0, None, 0
    while (jobs or running) and not bad:
        while jobs and len(running) < CORES and time.time() - t0 < limit:
            ms, a, b = jobs.pop(0)
            f = os.path.join(tmp, "m%d.out" % ms)
            v = builds[ms % len(builds)]
            running.append((miri_start(ms & 0xFFFFFFFF, [a, b], open(f, "wb"), v), ms & 0xFFFFFFFF, a, b, f, v))
        if not running:
            break
        time.sleep(0.05)
        for j in list(running):
            rc = j[0].poll()
            if rc is None:
                continue
            running.remove(j)
            out = tail(j[4], 200000)
            os.remove(j[4])
            m = re.findall(r"^DONE (\d+)", out, re.M)
            done[j[5]] += len(re.findall(r"^S \d+$", out, re.M))
            items += int(m[-1]) if m else 0
            c = miri_class(rc, out)
            if c and not bad:
                s = re.findall(r"^S (\d+)$", out, re.M)
                bad = (j[1], j[2], int(s[-1]) + 1 if s else j[3], c, j[5])
            elif rc and not c:
                odd += 1
                log("Miri gave no verdict: " + out[-400:])
    for j in running:
        j[0].kill()
        j[0].wait()
    cov = {"scenarios_of_overlapping_threads": sum(done.values()), "by_build": done, "items": items, "batches_without_verdict": odd,
           "seconds": round(time.time() - t0, 1), "scheduler": "Miri, seeded, preemption rate 3% per basic block"}
    return bad, cov


def miri_report(bad, tier):
    ms, a, b, (cls, msg), v = bad
    end = time.time() + (90 if tier == "quick" else 240)
    full = [9, 99, 99]

    def fails(ms, a, b, caps):
        c = miri_class(*miri_run(ms, [a, b] + caps, timeout=60, v=v))
        return c if c and c[0] == cls else None

    best = (ms, a, b, full)
    for s in range(6):  # the last scenario alone, under some schedule
        if time.time() < end and fails(s, b - 1, b, full):
            best = (s, b - 1, b, full)
            break
    if best[2] - best[1] == 1:
        for i, vals in ((0, (2,)), (2, (1, 2, 3)), (1, (0, 1, 2, 4, 6))):
            for v in vals:
                caps = list(best[3])
                caps[i] = v
                hit = next((s for s in [best[0], 0, 1, 2] if time.time() < end and fails(s, best[1], best[2], caps)), None)
                if hit is not None:
                    best = (hit, best[1], best[2], caps)
                    break
    ms, a, b, caps = best
    head = {"property": "C12", "mode": "miri", "class": cls, "build": v, "miri_seed": ms, "from": a, "to": b,
            "threads": caps[0], "rounds": caps[1], "objects": caps[2], "message": " ".join(msg.split())}
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "C12-miri-%d.txt" % a)
    with open(path, "w") as o:
        o.write(compose(head, []))
    log("violated: %s (%s)" % (msg, cls))
    log("scenario %d, schedule %d; check.py replay %s" % (a, ms, path))
    return path


# ---- evidence ----

def add(a, b):
    for k, x in b.items():
        if isinstance(x, dict):
            add(a.setdefault(k, {}), x)
        elif isinstance(x, list):
            a[k] = [p + q for p, q in zip(a[k], x)] if k in a else list(x)
        elif isinstance(x, str):
            pass
        else:
            a[k] = a.get(k, 0) + x


RULE = (
    "A case is one simulated run: a seed decides the clients, the mix of operations, every interleaving, argument, storage "
    "layout and fault. It is counted as distinct by the hash of its complete log (every answer, refusal, failure and item "
    "drop) and as non-trivial if at least 10 calls took effect."
)


def evidence(prop, tier, seed, procs, tmp, wall, search_s, level, violations, samples, more):
    tot, hashes, bits = {}, set(), None
    per_build = {}
    for i, v, p, a, s, out, rc in procs:
        f = os.path.join(tmp, "w%d" % i)
        if not os.path.exists(f):
            continue
        with open(f) as o:
            d = json.load(o)
        if prop == "C14" and v == "no_std":
            per_build["no_std"] = per_build.get("no_std", 0) + d["runs"]
            continue
        per_build[v] = per_build.get(v, 0) + d["runs"]
        add(tot, d)
        raw = open(f + ".hashes", "rb").read()
        hashes.update(raw[j:j + 8] for j in range(0, len(raw), 8))
        b = int.from_bytes(open(f + ".states", "rb").read(), "little")
        bits = b if bits is None else bits | b
    runs = tot.get("runs", 0)
    nbits = 1 << 22
    ones = bits.bit_count() if bits is not None else 0
    states = int(-nbits * math.log(1 - min(ones, nbits - 1) / nbits)) if ones else 0
    nontrivial = min(tot.get("nontrivial", 0), len(hashes))
    faults = dict(tot.get("faults", {}))
    if tot.get("oom"):
        faults["failed allocation"] = tot["oom"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": nontrivial,
        "rule": RULE,
        "samples": samples,
        "runs_per_build": per_build,
        "seeds_per_hour": int(runs / max(search_s, 0.001) * 3600),
        "search_seconds": round(search_s, 2),
        "steps": tot.get("steps", 0),
        "steps_without_target": tot.get("skipped", 0),
        "nested_steps": tot.get("nested", 0),
        "operations_done_refused_failed": tot.get("ops", {}),
        "items_made": tot.get("items", 0),
        "library_allocations": tot.get("allocations", 0),
        "library_allocations_in_reused_memory": tot.get("reused", 0),
        "library_allocations_in_pages_of_their_own": tot.get("fenced", 0),
        "faults_injected": faults,
        "callbacks_seen": tot.get("callbacks", {}),
        "rare_situations_reached": tot.get("probes", {}),
        "distinct_logs": len(hashes),
        "distinct_states": states,
        "distinct_states_measure": "abstract states (the shape of every structure with its reference counts, guards and "
        "the kind of each object; no names or values), estimated by linear counting over a bitmap",
        "simulated_time": "the library has no clock; time is the step count",
        "real": REAL,
        "stub": STUB,
    }
    if more:
        cov["overlapping_threads"] = more
    if STAND_IN:
        cov["no_std"] = "the library does not compile with it: its default build, in release mode, took that place"
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")
    return cov


REAL = "all of the crate `trees` (std build in debug mode and no_std build in release mode), unmodified; alloc, core, std"
STUB = "the item type with its callbacks, output sinks, source iterators, the global allocator (a shell around the system's)"
ASSUME = [
    "The reference model in sim/src states the documented behaviour.",
    "Seeded search: a history that no seed produced is not covered.",
    "Client code keeps to the safety contracts of `unsafe` functions and runs on the x86_64 target of this sandbox.",
]


def level_of(prop):
    return "exploration"


def check(prop, tier):
    t0 = time.time()
    seed, base = first_seed()
    tmp = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        build(prop)
        t1 = time.time()
        q, t = PLAN.get(prop, DEFAULT)
        runs = q if tier == "quick" else t
        procs, failed = search(prop, tier, runs, base, tmp)
        t2 = time.time()
        bad = None
        if failed:
            i, v, p, a, s, outf, rc = failed
            out = tail(outf)
            seeds = re.findall(r"^S (\d+)$", out, re.M)
            if not seeds:
                stop("a worker ended with %s before its first run: %s" % (rc, out[-500:]))
            cls, msg = classify(rc, out)
            bad = (v, int(seeds[-1]), cls, msg)
        elif prop == "C14":
            d = compare(procs)
            if d is not None:
                bad = ("both", d, "builds-differ", "the two builds give different logs")
        samples = []
        for i, v, a in [(0, "std", base), (1, "no_std", base + 1)]:
            rc, out = run(v, ["trace", prop, a])
            if rc == 0:
                samples.append({"seed": a, "build": v, "history": out.splitlines()[:40]})
        if not samples:
            samples = ["the first seeds fail"]
        if prop == "C14" and STAND_IN and not bad:
            bad = True
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "C14-build.txt")
            with open(path, "w") as o:
                o.write(compose({"property": "C14", "mode": "build", "class": "build"}, []))
            log("violated: the library does not compile with the feature no_std (build)")
        else:
            path = report(prop, bad[0], bad[1], bad[2], bad[3], tmp, tier) if bad else None
        more = {}
        if prop == "C12" and not bad:
            builds = miri_build()
            if builds:
                bad, more = miri_search(tier, base, tmp, builds)
                if bad:
                    path = miri_report(bad, tier)
            else:
                more = {"note": "Miri is not usable here: overlapping threads were not simulated"}
        cov = evidence(prop, tier, seed, procs, tmp, time.time() - t0, t2 - t1, level_of(prop), 1 if bad else 0, samples, more)
        if bad:
            log("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        log("%s: held in %d runs (%d steps, %d distinct non-trivial logs, %.0f s, of which %.0f s building)"
            % (prop, cov["evaluations"], cov["steps"], cov["distinct_nontrivial"], time.time() - t0, t1 - t0))
        if cov["evaluations"] == 0:
            stop("nothing was run")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def compare(procs):
    """The first seed whose log differs between the builds."""
    logs = {"std": {}, "no_std": {}}
    for i, v, p, a, s, outf, rc in procs:
        with open(outf) as o:
            for l in o:
                if l.startswith("H "):
                    _, sd, h = l.split()
                    logs[v][int(sd)] = h
    both = set(logs["std"]) & set(logs["no_std"])
    diff = [s for s in both if logs["std"][s] != logs["no_std"][s]]
    return min(diff) if diff else None


def determinism():
    """The same seeds in one process, in eight, and in the other build: one log each."""
    ok = True
    for prop in ["C%02d" % i for i in range(1, 17)]:
        if prop in ("C01", "C16"):
            build(prop)
        logs = []
        for v, k in (("std", 1), ("std", 8), ("no_std", 3)):
            h = {}
            for j in range(k):
                rc, out = run(v, ["run", prop, j, 1500, k, os.path.join(TARGET, "det")], more_env={"SIM_HASHES": "1"})
                if rc:
                    stop("%s: %s" % (prop, out[-300:]))
                h.update(x.split()[1:] for x in out.splitlines() if x.startswith("H "))
            logs.append(h)
        same = logs[0] == logs[1] and logs[0] == logs[2]
        ok &= same
        log("%s: %d seeds, %s" % (prop, len(logs[0]), "identical" if same else "DIFFERENT"))
    return 0 if ok else 2


def main():
    a = sys.argv[1:]
    os.makedirs(TARGET, exist_ok=True)
    if a[:1] == ["setup"]:
        build()
        return 0
    if a[:1] == ["determinism"]:
        return determinism()
    if a[:1] == ["replay"] and len(a) == 2:
        return do_replay(os.path.abspath(a[1]))
    if len(a) == 2 and re.match(r"^C\d\d$", a[0]) and a[1] in DEADLINE:
        return check(a[0], a[1])
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
