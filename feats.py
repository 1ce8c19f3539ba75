"""C17: the same histories against the library built with each combination of its features."""
import fcntl, hashlib, itertools, os, re, shutil, subprocess, sys, time, json
import check as c

FEATURES = ("alloc", "proc-macro", "std")
COMBOS = ["+".join(x) for n in range(4) for x in itertools.combinations(FEATURES, n)]
FULL = COMBOS[-1]
# Builds by name: hosted ones carry the simulator, bare ones run without the standard library.
BUILDS = {"feat-" + (x or "none"): ("feat", x) for x in COMBOS}
BUILDS.update({"bare-" + (x or "none"): ("bare", x) for x in COMBOS if "std" not in x})
REF = "feat-" + FULL


def root(kind):
    return os.path.join(c.HERE, kind)


def exe(b):
    kind = BUILDS[b][0]
    return os.path.join(root(kind), "target", b, kind, "v" + kind)


def cargo(b, verb):
    kind, combo = BUILDS[b]
    return ["cargo", verb, "--offline", "--profile", kind, "--target-dir", os.path.join(root(kind), "target", b)] + \
        (["--locked", "--quiet", "--no-default-features", "--features", combo.replace("+", ",")] if verb == "build" else ["-p", "oct", "-p", "oct-macros", "-p", "v" + kind])


def build(names=None):
    """Builds what is out of date; returns the builds that failed, with the end of what cargo said."""
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    for kind in ("feat", "bare"):
        os.makedirs(os.path.join(root(kind), "target"), exist_ok=True)
    failed = {}
    with open(os.path.join(root("feat"), "target", ".buildlock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = c.tree_hash(*([os.path.join(c.REPO, x) for x in ("oct/src", "oct-macros/src", "oct/Cargo.toml", "oct-macros/Cargo.toml", "Cargo.toml")] +
                             [os.path.join(root(k), x) for k in ("feat", "bare") for x in ("src", "Cargo.toml", "Cargo.lock")] + [os.path.join(c.SIM, "src")]))
        procs = {}

        def start(b, again=False):
            log = open(os.path.join(root(BUILDS[b][0]), "target", ".log-" + b), "w")
            procs[b] = subprocess.Popen(cargo(b, "build") + (["-j", "1"] if again else []), cwd=root(BUILDS[b][0]), env=env, stdout=log, stderr=subprocess.STDOUT)
        for b in names or BUILDS:
            stamp = os.path.join(root(BUILDS[b][0]), "target", ".hash-" + b)
            if os.path.exists(exe(b)) and os.path.exists(stamp) and open(stamp).read() == want:
                continue
            if os.path.exists(stamp):
                os.remove(stamp)
            subprocess.run(cargo(b, "clean"), cwd=root(BUILDS[b][0]), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            start(b)
        for again in (False, True):
            for b in list(procs):
                if procs[b].wait() == 0:
                    open(os.path.join(root(BUILDS[b][0]), "target", ".hash-" + b), "w").write(want)
                    del procs[b]
                    failed.pop(b, None)
                else:
                    failed[b] = open(os.path.join(root(BUILDS[b][0]), "target", ".log-" + b)).read()[-4000:]
                    if not again:
                        start(b, True)
    return failed


def logs(b, what, seed, runs, start=0):
    """The event-log digests of a build's runs, by run and part."""
    if what == "digests":
        r = subprocess.run([exe(b), "digests", "--seed", str(seed), "--runs", str(runs), "--from", str(start)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
        return {(int(l.split()[0]), "core"): " ".join(l.split()[1:]) for l in r.stdout.splitlines()}, r.returncode
    parts = ["core"] + (["alloc"] if "alloc" in b else []) + (["derive"] if "proc-macro" in b else [])
    cmd = [exe(b), str(seed), str(runs)] if b.startswith("bare") else [exe(b), "exchange", "--seed", str(seed), "--runs", str(runs)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=600)
    keys = [(i, p) for i in range(runs) for p in parts]
    lines = r.stdout.splitlines()
    return dict(zip(keys, lines)), (r.returncode if len(lines) == len(keys) or r.returncode else 1)


def differs(b, what, seed, runs):
    """The first run whose event log differs between `b` and the reference build; how many were compared."""
    (x, rx), (y, ry) = logs(b, what, seed, runs), logs(REF, what, seed, runs)
    if rx or ry:
        raise RuntimeError("%s: %s ended with %s and %s" % (what, b, rx, ry))
    both = sorted(set(x) & set(y))
    return next(((k, x[k], y[k]) for k in both if x[k] != y[k]), None), len(both)


def first_error(log):
    m = re.search(r"^error.*(?:\n.*){0,2}", log, re.M)
    return " ".join((m[0] if m else log[-300:]).split())


def write_replay(rdir, name, fields):
    p = os.path.join(rdir, name + ".replay")
    open(p, "w").write("".join("%s %s\n" % x for x in fields))
    return p


def run(prop, tier, seed):
    t0 = time.time()
    failed = build()
    if REF in failed:
        sys.stderr.write(failed[REF] + "\ncheck.py: build failed (%s)\n" % REF)
        return 2
    built = time.time() - t0
    rdir = os.path.join(c.HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    wdir = os.path.join(root("feat"), "target", "work-%d" % os.getpid())
    os.makedirs(wdir, exist_ok=True)
    results, violations, errors, lines = {}, [], [], []
    for b, log in failed.items():
        m = "%s does not build: %s" % (b, first_error(log))
        lines.append("violation class=build profile=%s : %s" % (b, m))
        violations.append((b, {"class": "build", "message": m, "replay": write_replay(rdir, "%s-build-%s" % (prop, b), [("property", prop), ("profile", b), ("kind", "build"), ("message", m)])}))
    runs = c.QUICK_RUNS[prop] * (c.THOROUGH_FACTOR if tier == "thorough" else 1)
    ncpu = os.cpu_count() or 8
    hosted = [b for b in BUILDS if b.startswith("feat") and b not in failed]
    for some in (hosted[:4], hosted[4:]):
        procs = {b: subprocess.Popen([exe(b), "batch", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(max(1, ncpu // 4)), "--cap", str(100 if tier == "quick" else 1800),
                                      "--out", os.path.join(wdir, b + ".json"), "--replays", rdir, "--shrink", "30"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for b in some}
        for b, pr in procs.items():
            out, err = pr.communicate()
            if out.strip():
                lines.append(out.strip())
            try:
                results[b] = json.load(open(os.path.join(wdir, b + ".json")))
            except Exception as e:
                errors.append("%s: no result (%s; exit %s): %s" % (b, e, pr.returncode, err[-2000:]))
                continue
            if results[b].get("violation"):
                violations.append((b, results[b]["violation"]))
            elif pr.returncode != 0:
                errors.append("%s: exit %s: %s" % (b, pr.returncode, err[-2000:]))
    shutil.rmtree(wdir, ignore_errors=True)
    compared = {"digests": 0, "exchange": 0}
    count = {"digests": runs // 10, "exchange": max(400, runs // 40)}
    for b in BUILDS:
        if b in failed or b == REF:
            continue
        for what in (("digests", "exchange") if b.startswith("feat") else ("exchange",)):
            try:
                d, n = differs(b, what, seed, count[what])
            except Exception as e:
                errors.append("%s: %s: %s" % (b, what, e))
                continue
            compared[what] += n
            if d:
                (i, part), x, y = d
                m = "run %d of %s (%s): the event log is %s in %s and %s in %s" % (i, what, part, x, b, y, REF)
                lines.append("violation class=differs profile=%s : %s" % (b, m))
                violations.append((b, {"class": "differs", "message": m, "replay": write_replay(rdir, "%s-%s-%s-%d-%d" % (prop, what, b, seed, i), [
                    ("property", prop), ("profile", b), ("kind", what), ("seed", seed), ("run", i), ("part", part), ("message", m)])}))
    ev = c.evidence(prop, tier, seed, results, violations, [], built, time.time() - t0)
    ev["coverage"]["builds"] = sorted(set(BUILDS) - set(failed))
    ev["coverage"]["event_logs_compared_between_builds"] = {"simulated exchanges": compared["digests"], "exchanges with and without the standard library": compared["exchange"]}
    return ev, lines, violations, errors


def replay(path, text):
    f = dict(l.split(" ", 1) for l in text.splitlines() if " " in l)
    b = f["profile"]
    failed = build(sorted({b, REF}))
    if f.get("kind") == "build":
        print("replay: " + (b + " does not build: " + first_error(failed[b]) if b in failed else "the run held"))
        return 1 if b in failed else 0
    if failed:
        sys.stderr.write("check.py: build failed (%s)\n" % ", ".join(failed))
        return 2
    if "kind" in f:
        i, part = int(f["run"]), f["part"]
        x, y = (logs(z, f["kind"], int(f["seed"]), i + 1)[0].get((i, part)) for z in (b, REF))
        if f["kind"] == "digests" and x != y:
            for z in (b, REF):
                print("-- " + z)
                subprocess.run([exe(z), "one", "C17core", "--seed", f["seed"], "--idx", str(i)])
        print("replay: %s in %s, %s in %s: %s" % (x, b, y, REF, "reproduced" if x != y else "the run held"))
        return 1 if x != y else 0
    return subprocess.run([exe(b), "replay", path]).returncode
