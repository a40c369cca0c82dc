#!/usr/bin/env python3
"""check.py PROPERTY | --setup | --replay FILE.   Exit 0: held; 1: VIOLATION; 2: the check failed."""
import concurrent.futures as cf
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbt
from mbt import ToolError, Violation, log

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
BOTH = ["std", "nostd"]
ALL4 = ["std", "nostd", "std-debug", "nostd-debug"]
NATIVE = ALL4 + ["std-native", "nostd-native", "std-plain"]
TARGETS = ["s390x", "i686", "sse", "oldest"]


class Job:
    """One generator, run on the library in some configurations, validated in some mode."""

    def __init__(self, gen, focus="x", mode="fun", counts="off", digests="on", configs=BOTH, shards=32, contiguous=False, module="Trace", memory=False, every=1, procs=False, watch=None):
        self.gen, self.focus, self.mode, self.configs = gen, focus, mode, configs
        self.env = {"COUNTS": counts, "DIGESTS": digests}
        if watch:
            self.env["WATCH"] = watch
        self.shards, self.contiguous, self.module, self.memory, self.every, self.procs = shards, contiguous, module, memory, every, procs

    def kind(self):
        return (self.mode, self.configs, self.env, self.contiguous, self.module, self.memory, self.procs)


def mem(gen, focus="x", configs=["std", "nostd", "std-asan", "nostd-asan"], every=1):
    """Only that every call returns or panics as specified, under watched memory."""
    return Job(gen, focus, "abs", digests="off", configs=configs, memory=True, every=every)


# property -> conformance jobs
PLAN = {
    "C01": [Job("GenSweep", "s", "abs")],
    "C02": [Job("GenParams", "s", "abs", shards=64)],
    "C03": [Job("GenBuilder")],
    "C04": [Job("GenRange"), Job("GenRange", "giant", shards=8)],
    "C05": [Job("GenStream", "stream", shards=16), Job("GenBig", "stream", shards=24), Job("GenBig", "hugestream", shards=8)],
    "C06": [Job("GenStream", "fin", "hist", "fun", shards=160), Job("GenSp", "fin", "hist", "fun", shards=160),
            Job("GenFin", mode="hist", counts="fun", shards=96)],
    "C07": [Job("GenIso", mode="hist", counts="fun", shards=96), Job("GenIso", "small", mode="hist", counts="fun", configs=["std", "miri", "miri-nostd"], shards=16)],
    "C08": [Job("GenStream", "flag", counts="abs", digests="off"), Job("GenSp", "stream", counts="abs", digests="off"),
            Job("GenMulti", "update", counts="abs", digests="off"), Job("GenBig", "stream", counts="abs", digests="off", shards=24),
            Job("GenBig", "sp", counts="abs", digests="off", shards=24)],
    "C09": [Job("GenStream", "flag", "abs", configs=["std"]), Job("GenFlag", mode="abs")],
    "C10": [Job("GenSweep", "sp", "abs"), Job("GenParams", "sp", "abs", shards=64)],
    "C11": [Job("GenSp", "stream", shards=16), Job("GenBig", "sp", shards=24), Job("GenBig", "hugesp", shards=8)],
    "C12": [Job("GenMulti", "update", "hist", "fun", shards=160), Job("GenBig", "multi", "hist", "fun", shards=24), Job("GenPlace", "api"), Job("GenBig", "hugemulti", "hist", "fun", shards=8)],
    "C13": [Job("GenMulti", "hash8", shards=64), Job("GenPlace", "api"), Job("GenBig", "hash8", shards=24), Job("GenBig", "hugehash8", shards=8)],
    "C14": [Job("GenMulti", "exact", shards=64), Job("GenPlace", "api"), Job("GenBig", "exact", shards=24), Job("GenBig", "hugeexact", shards=8)],
    "C15": [Job("GenMulti", "shape", digests="off"), Job("GenMulti", "giant", digests="off", shards=8)],
    "C16": [Job("GenCmp", mode="abs", configs=["std"]), Job("GenPlace", "cmp", mode="abs", configs=["std"]), Job("GenCmpApi", mode="abs")],
    "C17": [Job("GenApi", mode="same", module="SameTrace", configs=NATIVE),
            Job("GenPort", mode="same", module="SameTrace", configs=["std"] + TARGETS),
            Job("GenApi", "small", mode="same", module="SameTrace", configs=["std"] + TARGETS, every=4),
            Job("GenCmp", "small", mode="same", module="SameTrace", configs=["std"] + TARGETS)]
           + [Job("GenBig", f, mode="same", module="SameTrace", configs=ALL4, shards=24) for f in ("stream", "sp", "multi", "hash8", "exact")],
    "C18": [],
    "C21": [Job("GenCt", "cmp", module="CtTrace", configs=["std", "nostd", "std-debug"], procs=True, watch="path")],
    "C23": [Job("GenCt", "hash", module="CtTrace", configs=["std", "nostd"], procs=True, watch="path")],
    "C24": [Job("GenCt", f, module="CtTrace", configs=["std", "nostd"], procs=True, watch="mem") for f in ("cmp", "hash")],
    "C22": [mem("GenApi"), mem("GenApi", "small", ["miri"], every=2), mem("GenPort", configs=["miri", "sse"]), mem("GenRange"), mem("GenHash"), mem("GenStream", "stream", every=7), mem("GenSp", "stream", every=7),
            mem("GenMulti", "update", every=3), mem("GenMulti", "hash8", every=3), mem("GenMulti", "exact"), mem("GenMulti", "shape"), mem("GenCmp"), mem("GenCmp", "small", ["miri"]),
            mem("GenPlace", "api"), mem("GenPlace", "cmp")]
           + [mem("GenBig", f) for f in ("stream", "sp", "multi", "hash8", "exact")],
    "C19": [Job("GenHash")],
    "C20": [Job("GenDebug", digests="off")],
}
# property -> jobs with messages that no TLC evaluation of every block could follow (see Long)
def mid(focus, mode="abs", **kw):
    return dict(gen="GenMid", focus=focus, mode=mode, **kw)


LONG = {
    "C01": [mid("one", counts="off")], "C02": [mid("keyed", counts="off")], "C05": [mid("walk", "fun", counts="off")],
    "C08": [mid("keyed", digests="off"), mid("spwalk", digests="off"), mid("counts", digests="off")], "C10": [mid("sp", counts="off")], "C11": [mid("spwalk", "fun", counts="off")],
    "C12": [mid("multi", "hist", counts="off")], "C13": [mid("hash8", "hist", counts="off")], "C14": [mid("exact", "hist", counts="off")],
    "C18": [dict()],
}
# property -> design models the property is checked on: module, configuration, constants in the thorough tier
STREAM = ("DStream", "DStream.cfg", {"BLOCK": "5", "MaxLen": "41", "MaxPiece": "41"})
CLONE = ("DStream", "DClone.cfg", {"MaxLen": "7", "MaxPiece": "7", "Flags": "{FALSE, TRUE}"})
THREADS = ("DStream", "DThreads.cfg", {"MaxLen": "6", "MaxPiece": "6"})
MULTI = ("DMulti", "DMulti.cfg", {"N": "3", "MaxLen": "7", "MaxPiece": "7"})
ONCE = ("DOnce", "DOnce.cfg", {"N": "5", "MaxLen": "6"})
TREE = ("DSp", "DSp.cfg", {"LANES": "5", "OUT": "3", "MaxLen": "75", "MaxPiece": "75"})
BUILDER = ("DParams", "DParams.cfg", {})
SECRET = ("DSecret", "DSecret.cfg", {"MaxLen": "8"})
SIMD = ("DSimd", "DSimd.cfg", {})
HASH = ("DHash", "DHash.cfg", {"OUT": "3"})
KAT = ("FuncTest", "FuncTest.cfg", {})
DESIGN = {
    "C01": [KAT, STREAM], "C02": [KAT, BUILDER], "C03": [BUILDER], "C04": [BUILDER], "C05": [STREAM, "UStream"], "C06": [STREAM, TREE, MULTI],
    "C07": [CLONE, THREADS], "C08": [STREAM, CLONE, TREE, MULTI], "C09": [STREAM, "UStream"], "C10": [KAT, TREE, "USp"], "C11": [TREE, "USp"],
    "C12": [MULTI, SIMD], "C13": [ONCE, "UOnce", SIMD], "C14": [ONCE, "UOnce", SIMD], "C15": [ONCE, "UOnce"], "C16": [SIMD], "C17": [SIMD], "C18": ["UStream"],
    "C19": [HASH], "C20": [SECRET], "C21": [SECRET], "C22": [STREAM, ONCE, "UStream", "USp", "UOnce"], "C23": [SECRET], "C24": [SECRET],
}


def check(prop, ev):
    work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=mbt.BUILD)
    cov = ev["coverage"]
    try:
        env0 = {"VERIF_TIER": TIER, "VERIF_SEED": str(SEED)}
        for d in DESIGN[prop]:
            st = mbt.unbounded(d, work) if isinstance(d, str) else mbt.design(d[0], d[1], d[2] if THOROUGH else {}, work, timeout=6000 if THOROUGH else 300)
            cov["design_models"].append(st)
            cov["states"] += st.get("states", 0)
            cov["transitions"] += st.get("transitions", 0)
        groups = []
        for j in PLAN[prop]:      # jobs that differ in their scripts only run together
            if groups and j.mode in ("abs", "same") and j.kind() in [g[0].kind() for g in groups]:
                next(g for g in groups if g[0].kind() == j.kind()).append(j)
            else:
                groups.append([j])
        for i, g in enumerate(groups):
            j = g[0]
            with cf.ThreadPoolExecutor(3) as ex:
                made = list(ex.map(lambda x: mbt.generate(x.gen, dict(env0, FOCUS=x.focus), work, timeout=3000 if THOROUGH else 300, heap="6g"), g))
            refs, scripts = [], []
            for x, (rs, ss, gst) in zip(g, made):
                cov["generation"].append(gst)
                cov["states"] += gst["states"]
                cov["transitions"] += gst["transitions"]
                if not THOROUGH:
                    ss = ss[::x.every]
                cov["samples"] += mbt.sample_of(ss, 2 if len(g) == 1 else 1)
                scripts += ss if len(g) == 1 else rs + ss
                refs = rs if len(g) == 1 else []
            shards = max(x.shards for x in g) * (8 if THOROUGH else 1)
            info = mbt.conformance(prop, j.mode, j.configs, refs, scripts, work, nshards=shards, contiguous=j.contiguous,
                                   timeout=12000 if THOROUGH else 800, label=str(i), module=j.module, env=j.env, memory=j.memory, procs=j.procs)
            info.update(generators=[[x.gen, x.focus] for x in g], mode=j.mode, **j.env)
            cov["conformance"].append(info)
            cov["states"] += info["states"]
            cov["transitions"] += info["transitions"]
            cov["traces_validated_against_impl"] += info["behaviours_validated"]
            shutil.rmtree(os.path.join(work, "conf" + str(i)), ignore_errors=True)
        for kw in LONG.get(prop, []):
            gens, info = mbt.long_run(prop, work, env0, 6000 if THOROUGH else 700, **kw)
            cov["generation"] += gens
            cov["conformance"].append(info)
            cov["states"] += info["states"]
            cov["transitions"] += info["transitions"]
            cov["traces_validated_against_impl"] += info["behaviours_validated"]
        if prop == "C18":
            cov["samples"].append("eight hashers brought to 2^32 - 192 bytes by threads, cloned, and led across 2^32 in every lane and step size (GenLong.Crossing)")
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(mbt.BUILD, exist_ok=True)
    if sys.argv[1] == "--setup":
        mbt.build_all(NATIVE)
        return 0
    if sys.argv[1] == "--replay":
        return mbt.replay(sys.argv[2])
    prop = sys.argv[1]
    t0 = time.time()
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "violations": 0,
          "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "design_models": [],
                       "generation": [], "conformance": []},
          "assumptions": ["the specification's reading of RFC 7693 and of the documentation (checked against published vectors by spec/FuncTest)",
                          "TLC, rustc and the harness are correct"]}
    rc = 0
    try:
        check(prop, ev)
    except Violation as v:
        log("violation: " + v.what)
        ev["violations"] = 1
        ev["violation"] = {"what": v.what, "replay": v.replay}
        if not ev["coverage"]["samples"]:
            ev["coverage"]["samples"] = [v.what]
        print("VIOLATION property=%s replay=%s" % (prop, v.replay), flush=True)
        rc = 1
    except ToolError as e:
        log("ERROR: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    ev["wall_s"] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(mbt.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(mbt.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: exit %d after %.1f s" % (prop, rc, ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
