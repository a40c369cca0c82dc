#!/usr/bin/env python3
"""seedtest.py [ids...] [-p PROP]: applies each planted bug of /verif/seeded to /repo, runs its property's check (or
PROP's), undoes it, and prints what happened.  A development tool: no check uses it."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def git(*a):
    return subprocess.run(["git", "-C", REPO] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    args = sys.argv[1:]
    prop = None
    if "-p" in args:
        i = args.index("-p")
        prop = args[i + 1]
        del args[i:i + 2]
    ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    assert git("status", "--porcelain", "-uno").stdout.strip() == "", "/repo is not clean"
    for s in ids:
        d = os.path.join(VERIF, "seeded", s)
        p = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
        r = git("apply", os.path.join(d, "patch.diff"))
        if r.returncode:
            print("%-28s %s DOES NOT APPLY %s" % (s, p, r.stdout))
            continue
        t0 = time.time()
        try:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "tools/check.py"), p], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        finally:
            git("checkout", "--", ".")
        hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        note = [x for x in r.stderr.split("\n") if x.startswith("violation:")]
        print("%-28s %s %-7s rc=%d %5.0fs %s" % (s, p, "caught" if hit else "MISSED", r.returncode, time.time() - t0,
                                                 note[0][11:100] if note else r.stderr[-300:]), flush=True)


main()
