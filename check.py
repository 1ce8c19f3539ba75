#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and decides one property.

  check.py setup            build everything once
  check.py run PROP         quick or thorough check (VERIF_TIER), seeded by VERIF_SEED
  check.py replay FILE      re-execute a violation
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 error of the check itself.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
TARGET = os.path.join(SIM, "target")
BASE = ("simdbg", "simrel")
# The properties that say what may be read and written are decided under sanitizers too, on a share of the runs.
SAN = {
    "simsan": ("-Zsanitizer=address --cfg vsim_asan", [], {"C01": 8, "C02": 4, "C03": 5, "C04": 4, "C05": 5, "C06": 6, "C08": 10, "C09": 8, "C14": 16, "C15": 4}),
    "simmem": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg vsim_msan", ["-Zbuild-std"], {"C02": 20, "C03": 10, "C04": 6, "C08": 20, "C09": 12}),
}
PROFILES = BASE + tuple(SAN)
TRIPLE = "x86_64-unknown-linux-gnu"

# Simulated runs per profile in a quick check; a thorough one multiplies them.
QUICK_RUNS = json.load(open(os.path.join(HERE, "tools", "runs.json")))
THOROUGH_FACTOR = 30
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = []
        if os.path.isfile(root):
            files = [root]
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml", ".lock"))]
        for f in sorted(files):
            h.update(f.encode()); h.update(b"\0")
            text = open(f, "rb").read()
            if f.endswith(".rs"):
                # Plain comment lines change nothing; documentation (an attribute) might.
                text = b"\n".join(l for l in text.split(b"\n") if not (l.lstrip().startswith(b"//") and not l.lstrip().startswith((b"///", b"//!"))))
            h.update(text); h.update(b"\0")
    return h.hexdigest()


def build(profiles=PROFILES):
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    with open(os.path.join(TARGET, ".buildlock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash(os.path.join(REPO, "oct", "src"), os.path.join(REPO, "oct-macros", "src"), os.path.join(REPO, "oct", "Cargo.toml"),
                         os.path.join(REPO, "oct-macros", "Cargo.toml"), os.path.join(REPO, "Cargo.toml"), os.path.join(SIM, "src"), os.path.join(SIM, "Cargo.toml"), os.path.join(SIM, "Cargo.lock"))
        for p in profiles:
            stamp = os.path.join(TARGET, ".hash-" + p)
            if os.path.exists(exe(p)) and os.path.exists(stamp) and open(stamp).read() == want:
                continue
            if os.path.exists(stamp):
                os.remove(stamp)
            # Content decides, not modification times.
            subprocess.run(["cargo", "clean", "--offline"] + flags(p) + ["-p", "oct", "-p", "oct-macros", "-p", "vsim"], cwd=SIM, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs = {}
        for p in profiles:
            stamp = os.path.join(TARGET, ".hash-" + p)
            if os.path.exists(stamp):
                continue
            log = open(os.path.join(TARGET, ".log-" + p), "w")
            penv = dict(env, RUSTC_BOOTSTRAP="1", RUSTFLAGS=SAN[p][0]) if p in SAN else env
            procs[p] = subprocess.Popen(["cargo", "build", "--offline", "--locked", "--quiet"] + flags(p) + (SAN[p][1] if p in SAN else []), cwd=SIM, env=penv, stdout=log, stderr=subprocess.STDOUT)
        bad = False
        for p, r in procs.items():
            if r.wait() != 0:
                t = open(os.path.join(TARGET, ".log-" + p)).read()
                sys.stderr.write(t[-6000:] + "\ncheck.py: build failed (%s)\n" % p)
                # The two ordinary builds decide without the sanitizers if these cannot be had.
                bad = bad or p in BASE
            else:
                open(os.path.join(TARGET, ".hash-" + p), "w").write(want)
        if bad:
            sys.exit(2)


def tdir(p):
    return os.path.join(TARGET, p + "-t")


def flags(p):
    return ["--profile", p, "--target-dir", tdir(p)] + (["--target", TRIPLE] if p in SAN else [])


def exe(p):
    return os.path.join(tdir(p), TRIPLE if p in SAN else "", p, "vsim")


def usable(p):
    """A sanitizer build that was made and that starts here."""
    return os.path.exists(os.path.join(TARGET, ".hash-" + p)) and subprocess.run([exe(p), "types"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def known(prop):
    f = json.load(open(os.path.join(HERE, "known_findings.json")))
    return [k for k in f["findings"] if k["property"] == prop]


def run(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop == "C17":
        import feats
        r = feats.run(prop, tier, seed)
        return r if isinstance(r, int) else report(prop, tier, seed, *r, findings=[])
    profiles = [p for p in PROFILES if p in BASE or prop in SAN[p][2]]
    build(profiles)
    profiles = [p for p in profiles if p in BASE or usable(p)]
    built = time.time() - t0
    ncpu = os.cpu_count() or 8
    workers = max(1, ncpu // len(BASE))
    runs = QUICK_RUNS[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    cap = 150 if tier == "quick" else 3600
    rdir = os.path.join(HERE, "replays")
    wdir = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(wdir, exist_ok=True)
    procs = {}
    for p in profiles:
        procs[p] = subprocess.Popen([exe(p), "batch", prop, "--seed", str(seed), "--runs", str(runs // SAN[p][2][prop] if p in SAN else runs), "--workers", str(workers), "--cap", str(cap),
                                     "--out", os.path.join(wdir, p + ".json"), "--replays", rdir, "--shrink", "30"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    results, violations, errors, lines = {}, [], [], []
    for p, pr in procs.items():
        out, err = pr.communicate()
        if out.strip():
            lines.append(out.strip())
        try:
            results[p] = json.load(open(os.path.join(wdir, p + ".json")))
        except Exception as e:
            errors.append("%s: no result (%s; exit %s): %s" % (p, e, pr.returncode, err[-2000:]))
            continue
        v = results[p].get("violation")
        if v:
            violations.append((p, v))
        elif pr.returncode != 0:
            errors.append("%s: exit %s: %s" % (p, pr.returncode, err[-2000:]))
    # Known findings: each is a history of its own, re-executed every time.
    findings = []
    for k in known(prop):
        if k.get("status") != "open":
            continue
        states = {}
        for p in BASE:
            r = subprocess.run([exe(p), "probe", k["probe"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            m = re.search(r"^PROBE (HOLDS|MANIFESTS|OTHER)(.*)$", r.stdout, re.M)
            states[p] = (m.group(1), m.group(2).strip()) if m else ("OTHER", "the probe ended with %s" % r.returncode)
        if any(s[0] == "OTHER" for s in states.values()):
            path = os.path.join(rdir, "%s-probe-%s.replay" % (prop, k["probe"]))
            bad = [(p, s) for p, s in states.items() if s[0] == "OTHER"]
            open(path, "w").write("property %s\nprobe %s\nprofile %s\nmessage %s\n" % (prop, k["probe"], bad[0][0], bad[0][1][1]))
            violations.append((bad[0][0], {"class": "probe:" + k["probe"], "message": bad[0][1][1], "replay": path, "run": -1, "choices": 0}))
        elif any(s[0] == "MANIFESTS" for s in states.values()):
            findings.append(k)
    shutil.rmtree(wdir, ignore_errors=True)

    ev = evidence(prop, tier, seed, results, violations, findings, built, time.time() - t0)
    return report(prop, tier, seed, ev, lines, violations, errors, findings)


def report(prop, tier, seed, ev, lines, violations, errors, findings):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    for l in lines:
        print(l)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    c = ev["coverage"]
    print("%s %s seed=%d: %d simulated runs (%d distinct and non-trivial), %d judged steps, %.0f simulated s, %d faults, %.1f s" % (
        prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], c["judged_steps"], c["simulated_seconds"], sum(c["faults_injected"].values()), ev["wall_s"]))
    if violations:
        for p, v in violations:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if errors:
        for e in errors:
            sys.stderr.write("check.py: " + e + "\n")
        return 2
    return 0


def evidence(prop, tier, seed, results, violations, findings, built, wall):
    def add(key):
        return sum(r.get(key, 0) for r in results.values())

    def merge(key):
        out = {}
        for r in results.values():
            for k, v in r.get(key, {}).items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))
    n = NOTES[prop]
    explored = max([r["explored_s"] for r in results.values()] or [0]) or 1e-9
    samples = [s for r in results.values() for s in r.get("samples", [])]
    for p, v in violations:
        samples.insert(0, {"profile": p, "violation": v})
    return {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": add("runs"),
            "distinct_nontrivial": add("nontrivial"),
            "rule": n["rule"],
            "samples": samples or ["no run completed"],
            "steps": add("steps"),
            "judged_steps": add("checks"),
            "simulated_seconds": round(add("sim_s"), 3),
            "runs_per_hour": int(add("runs") / explored * 3600),
            "seeds": "one base seed (%d); each run's seed is a hash of it, the property and the run number, so runs = seeds" % seed,
            "seeds_per_hour": int(add("runs") / explored * 3600),
            "faults_injected": merge("faults"),
            "conditions_reached": merge("probes"),
            "distinct_runs": add("distinct"),
            "distinct_states": add("states"),
            "distinct_measure": n["measure"],
            "repeatability": {"runs_re_executed_in_a_fresh_process": add("repeat_checked"), "event_logs_that_differed": add("repeat_differed")},
            "real_code": n["real"], "stubs": n["stub"],
            "per_profile": {p: {k: r[k] for k in ("runs", "requested_runs", "steps", "checks", "distinct", "nontrivial", "states", "explored_s")} for p, r in results.items()},
            "build_s": round(built, 2),
            "known_findings_seen": [k["what"] for k in findings],
        },
        "assumptions": n["assumptions"],
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }


def replay(path):
    path = os.path.abspath(path)
    text = open(path).read()
    prof = (re.search(r"^profile (\S+)", text, re.M) or [None, "simdbg"])[1]
    if prof.startswith(("feat-", "bare-")):
        import feats
        return feats.replay(path, text)
    build([prof])
    m = re.search(r"^probe (\S+)", text, re.M)
    if m:
        r = subprocess.run([exe(prof), "probe", m[1]], stdout=subprocess.PIPE, text=True)
        print(r.stdout, end="")
        return 1 if "PROBE OTHER" in r.stdout or "PROBE" not in r.stdout else 0
    return subprocess.run([exe(prof), "replay", path]).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build()
        import feats
        if feats.REF in feats.build():
            return 2
        return 0
    if len(a) == 2 and a[0] == "run" and a[1] in QUICK_RUNS:
        return run(a[1])
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
