#!/usr/bin/env python3
"""selftest.py [--thorough | mutants | binding]: does the machinery notice?
mutants: every seeded design error (Impl's Bug) has to be refused by its design model.
binding: traces of the real library, altered in one value, have to be rejected.
A development tool: no check uses it."""
import json
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbt

MUTANTS = {
    ("DStream", "DStream.cfg"): "eager greedy lazycount countafter shortkey notail nonode inplace restart keycount",
    ("DStream", "DClone.cfg"): "clonebuf",
    ("DStream", "DThreads.cfg"): "shared",
    ("DMulti", "DMulti.cfg"): "anylane lanecount noflush tail1 node1 eager",
    ("DOnce", "DOnce.cfg"): "finalany losecount key1 unequal ragged empty nokeyblock",
    ("DSp", "DSp.cfg"): "rootkey keywait noshift second far order eager lazycount",
    ("DParams", "DParams.cfg"): "hl0 noff residue saltresidue leafcut latepanic overlap",
    ("DSecret", "DSecret.cfg"): "skipzero debugbuf early table tablecmp",
    ("DSimd", "DSimd.cfg"): "blend halves shuffle undiagonalize unpack permute back diagonal",
    ("DHash", "DHash.cfg"): "all prefix last nozero swapped",
}


def mutants(work):
    bad = 0
    for (module, cfg), bugs in MUTANTS.items():
        for b in ["none"] + bugs.split():
            ok, lines, st = mbt.tlc(module + ".tla", mbt.with_constants(cfg, {"Bug": '"%s"' % b}, work), {}, work)
            err = next((x for x in lines if x.startswith("Error: ")), "")
            right = ok == (b == "none")
            bad += not right
            print("%-8s %-12s %-11s %s %s" % (module, cfg, b, "accepted" if ok else "refused: " + err[7:80], "" if right else "  <-- WRONG"), flush=True)
    return bad


def alter(e, rnd):
    """One observed value of an event changed; None if it has none."""
    e = json.loads(json.dumps(e))
    if "d" in e and e["d"]:
        d = e["d"]
        if isinstance(d[0], list):
            d = rnd.choice(d)
        if d:
            i = rnd.randrange(len(d))
            d[i] ^= 1 << rnd.randrange(8)
            return e
    if "c" in e:
        i = rnd.randrange(len(e["c"]))
        e["c"][i] = (e["c"][i] + 1) % 65536
        return e
    if e.get("op") in ("heq", "heqs", "heqd") and "eq" in e:
        e["eq"] = not e["eq"]
        return e
    if "wn" in e:
        e["wn"] += 1
        return e
    if "out" in e and isinstance(e["out"], list) and e["out"]:
        w = rnd.choice(e["out"])
        if isinstance(w, list) and w:
            w = w[0] if isinstance(w[0], list) else w
            w[0] = (w[0] + 1) % 65536
            return e
    if e.get("op") in ("pset", "h8", "exact", "st", "upd"):
        if e.get("ok"):
            e = {k: v for k, v in e.items() if k not in ("d",)}
            e.update(ok=False, panic="no reason")
            return e
        if e.get("op") == "pset":
            e["ok"] = True
            e.pop("panic", None)
            return e
    return None


def binding(work):
    """For generators in mode abs: one altered event per trace file; every file has to be rejected there."""
    bad = 0
    bins = mbt.build_all(["std"])
    for gen, focus in [("GenPort", "x"), ("GenHash", "x"), ("GenRange", "x"), ("GenApi", "small"), ("GenMulti", "shape"), ("GenSweep", "s"), ("GenCmp", "x")]:
        refs, scripts, _ = mbt.generate(gen, {"VERIF_TIER": "quick", "VERIF_SEED": "1", "FOCUS": focus}, work)
        scripts = scripts[::max(1, len(scripts) // 200)]
        sub = os.path.join(work, gen)
        os.makedirs(sub)
        files = mbt.write_shards(scripts, [], 40, sub, False)
        out = os.path.join(sub, "out")
        assert mbt.run_harness(bins["std"][0], files, out) is None
        rnd = random.Random(7)
        traces, where = [], {}
        for f in files:
            lines = [json.loads(x) for x in open(os.path.join(out, os.path.basename(f)))]
            order = list(range(len(lines)))
            rnd.shuffle(order)
            for i in order:
                x = alter(lines[i], rnd)
                if x is not None and x != lines[i]:
                    t = os.path.join(sub, "t-" + os.path.basename(f))
                    what = lines[i]["op"]
                    lines[i] = x
                    with open(t, "w") as h:
                        h.write('{"op":"config","name":"std"}\n' + "".join(mbt.dump(y) + "\n" for y in lines))
                    traces.append(t)
                    where[t] = (i + 1, what)
                    break
        rej, _ = mbt.validate(traces, "abs", sub)
        hit = {t: l for t, l, _ in rej}
        missed = [(t, w) for t, w in where.items() if hit.get(t) != w[0]]
        bad += len(missed)
        kinds = sorted(set(w[1] for w in where.values()))
        print("%-10s %d of %d altered traces rejected at the altered event (%s)" % (gen, len(where) - len(missed), len(where), " ".join(kinds)), flush=True)
        for t, w in missed[:5]:
            print("   missed", os.path.basename(t), w, "rejected at", hit.get(t))
    return bad


def thorough(work):
    """The design models with the constants of the thorough tier."""
    import check
    done = set()
    for ds in check.DESIGN.values():
        for d in ds:
            if str(d) in done or isinstance(d, str):
                continue
            done.add(str(d))
            print(mbt.design(d[0], d[1], d[2], work, timeout=7200), flush=True)
    return 0


work = os.path.join(mbt.BUILD, "selftest-%d" % os.getpid())
os.makedirs(work)
try:
    what = sys.argv[1:] or ["mutants", "binding"]
    n = sum({"mutants": mutants, "binding": binding, "--thorough": thorough}[x](work) for x in what)
finally:
    shutil.rmtree(work)
print("%d failures" % n)
sys.exit(n > 0)
