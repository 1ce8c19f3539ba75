#!/usr/bin/env python3
"""Development aid: runs the registered check of each planted bug in scratch copies.

  seedtest.py [-j N] [--prop CNN] [--diff FILE]... [ID...]
Prints one line per bug. With --diff, applies that patch (a refactoring, say) and
runs every check (or --prop) on it. Nothing registered in MANIFEST.json uses this.
"""
import json, os, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEEDTEST_DIR", "/tmp/seedtest")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    a = sys.argv[1:]; n = 3; props = None; diffs = []; ids = []
    while a:
        x = a.pop(0)
        if x == "-j": n = int(a.pop(0))
        elif x == "--prop": props = a.pop(0).split(",")
        elif x == "--diff": diffs.append(a.pop(0))
        else: ids.append(x)
    allp = sorted(json.load(open(V + "/tools/runs.json")))
    jobs = []
    if diffs:
        jobs = [(d, d, props or allp) for d in diffs]
    else:
        for i in sorted(ids or os.listdir(V + "/seeded")):
            m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
            if props and not ids and m["property"] not in props:
                continue
            jobs.append((i, "%s/seeded/%s/patch.diff" % (V, i), props if ids and props else [m["property"]]))
    lock = threading.Lock()

    def work(k):
        d = "%s/%d" % (R, k)
        os.makedirs(d, exist_ok=True)
        sh("rsync -a --delete --exclude target /repo/ %s/repo/ ; rsync -a --delete --exclude target --exclude replays --exclude seeded --exclude .git %s/ %s/verif/" % (d, V, d))
        if not os.path.isdir(d + "/repo/oct"):
            sh("mkdir -p {0}/repo {0}/verif; cd /repo && tar cf - --exclude=./target . | tar xf - -C {0}/repo; cd {1} && tar cf - --exclude=./sim/target --exclude=./.git --exclude=./seeded . | tar xf - -C {0}/verif".format(d, V))
        env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        while True:
            with lock:
                if not jobs:
                    return
                i, patch, ps = jobs.pop(0)
            r = sh("git checkout -q -- . && git apply " + patch, cwd=d + "/repo")
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout, flush=True); continue
            for p in ps:
                t = time.time()
                r = sh("python3 check.py run " + p, cwd=d + "/verif", env=env)
                word = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "ERROR")
                lines = r.stdout.strip().split("\n")
                msg = [l for l in lines if "class" in l or "violation" in l.lower()]
                print("%-24s %s %-6s %4.0f s  %s" % (os.path.basename(i), p, word, time.time() - t, " | ".join(msg)[:300] if r.returncode else ""), flush=True)
                if r.returncode not in (0, 1):
                    print("\n".join(lines[-15:]), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]


if __name__ == "__main__":
    main()
