"""Model-based checking machinery: TLC runs, script generation, execution on the real
library, trace validation, evidence.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
NCPU = 8


class ToolError(Exception):
    """The check itself failed (exit 2): says nothing about the code."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


# Build configurations of the harness: cargo arguments.
BOTH = ["std", "nostd"]
CONFIGS = {
    "std": ["--release", "--no-default-features", "--features", "std,bench"],
    "nostd": ["--release", "--no-default-features", "--features", "bench"],
    "std-debug": ["--no-default-features", "--features", "std,bench"],
    "nostd-debug": ["--no-default-features", "--features", "bench"],
    # for this very machine, and without optimization
    "std-native": ["--release", "--no-default-features", "--features", "std,bench"],
    "nostd-native": ["--release", "--no-default-features", "--features", "bench"],
    "std-plain": ["--release", "--no-default-features", "--features", "std,bench"],
    # instrumented: every access outside an object ends the program
    "std-asan": ["--release", "--target", "x86_64-unknown-linux-gnu", "--no-default-features", "--features", "std,bench"],
    "nostd-asan": ["--release", "--target", "x86_64-unknown-linux-gnu", "--no-default-features", "--features", "bench"],
}

# Configurations run in the Miri interpreter: target, features, target features.
MIRI = {
    "s390x": ("s390x-unknown-linux-gnu", "std,bench", ""),                       # big-endian, 64-bit, portable
    "i686": ("i686-unknown-linux-gnu", "std,bench", "+avx2,+sse4.1"),            # little-endian, 32-bit, AVX2
    "sse": ("x86_64-unknown-linux-gnu", "std,bench", "+sse4.1"),                 # a machine before AVX2
    "oldest": ("x86_64-unknown-linux-gnu", "std,bench", ""),                     # a machine before SSE4.1
    "miri": ("x86_64-unknown-linux-gnu", "std,bench", "+avx2,+sse4.1"),          # this machine, every access checked
    "miri-nostd": ("x86_64-unknown-linux-gnu", "bench", ""),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check -Zmiri-disable-validation -Zmiri-ignore-leaks"


ACCESS = re.compile("Undefined Behavior: .*(memory access|out-of-bounds|in-bounds|dangling|null pointer|dereferenc|past the end|read-only|writing to alloc)")

# Errors of the interpreter that are this library's whatever is being checked: a call the machine
# cannot execute, and calls of several threads, on objects of their own, that touch the same memory.
FEATURES = re.compile("requires unavailable target features|Undefined Behavior: Data race detected")


class Unavailable(Exception):
    """An optional execution environment does not work here."""


class NotBuilt(Exception):
    """The library does not compile in some configuration."""


LIBRARY = "could not compile `blake2s_simd`"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
def cargo_env(target):
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build(config):
    """Builds the harness against /repo's working tree; returns (binary, has_bench)."""
    target = os.path.join(BUILD, "h-" + config)
    args = list(CONFIGS[config])
    harness = os.path.join(VERIF, "harness")
    for attempt in ("bench", "nobench"):
        if attempt == "nobench":
            i = args.index("--features") + 1
            feats = [f for f in args[i].split(",") if f != "bench"]
            if feats:
                args[i] = ",".join(feats)
            else:
                del args[i - 1:i + 1]
        env = cargo_env(target)
        asan = config.endswith("-asan")
        if asan:
            env["RUSTFLAGS"] = "-Zsanitizer=address"
        elif config.endswith("-native"):
            env["RUSTFLAGS"] = "-Ctarget-cpu=native -Copt-level=3"
        elif config.endswith("-plain"):
            env["RUSTFLAGS"] = "-Copt-level=0"
        r = subprocess.run(["cargo"] + ["+nightly"] * asan + ["build", "--offline", "--quiet"] + args, cwd=harness,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            prof = "release" if "--release" in args else "debug"
            return os.path.join(target, args[args.index("--target") + 1] if "--target" in args else "", prof, "harness"), attempt == "bench"
        err = r.stdout
    if LIBRARY in err:
        raise NotBuilt(err[-3000:])
    raise ToolError("harness does not build (%s):\n%s" % (config, err[-3000:]))


def build_all(configs, prop=None, notes=None):
    """Builds in each configuration. That the library compiles in all of them is a part of C17;
    for other properties a configuration in which it does not is left out."""
    bins = {}
    with cf.ThreadPoolExecutor(4) as ex:
        jobs = {c: ex.submit(build, c) for c in configs}
    for c in configs:
        try:
            bins[c] = jobs[c].result()
        except NotBuilt as e:
            not_built(c, str(e), prop, notes)
    if configs and not bins:
        raise ToolError("the library does not compile")
    return bins


def not_built(config, err, prop, notes):
    if prop == "C17":
        raise Violation("the library does not compile in configuration %s" % config, save_replay(prop, {
            "property": prop, "configuration": config, "kind": "compile", "script": [], "expected": "it compiles in every configuration", "report": err}))
    log("configuration %s not run: the library does not compile" % config)
    if notes is not None:
        notes.append("configuration %s not run: the library does not compile" % config)


MIRI_SETUP = {}
MIRI_LOCK = threading.Lock()


def miri_env(config):
    target, _, tf = MIRI[config]
    e = cargo_env(os.path.join(BUILD, "h-" + config))
    e["MIRI_SYSROOT"] = os.path.join(BUILD, "miri-" + target)
    e["MIRIFLAGS"] = MIRIFLAGS
    if tf:
        e["RUSTFLAGS"] = "-Ctarget-feature=" + tf
    return e


def miri_cmd(config):
    target, feats, _ = MIRI[config]
    return ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--release", "--target", target, "--no-default-features", "--features", feats, "--"]


def miri_setup(config):
    """Builds the standard library and the harness for the interpreter; raises Unavailable."""
    harness = os.path.join(VERIF, "harness")
    target = MIRI[config][0]
    env = miri_env(config)
    with MIRI_LOCK:
        lock = MIRI_SETUP.setdefault(target, threading.Lock())
    with lock:
        if not os.path.isdir(os.path.join(env["MIRI_SYSROOT"], "lib")):
            e = dict(env)
            e.pop("RUSTFLAGS", None)
            r = subprocess.run(["cargo", "+nightly", "miri", "setup", "-q", "--target", target], cwd=harness, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
            if r.returncode:
                shutil.rmtree(env["MIRI_SYSROOT"], ignore_errors=True)
                raise Unavailable("no standard library for %s: %s" % (target, r.stdout[-500:]))
    r = subprocess.run(miri_cmd(config) + ["features"], cwd=harness, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    if r.returncode or "std=" not in r.stdout:
        raise Unavailable("the harness does not run interpreted for %s: %s" % (target, r.stdout[-1500:]))


def run_miri(config, files, outdir, timeout, procs=NCPU):
    """Executes script files in the interpreter, a process for each group of files. Returns
    None or the first failure (file, kind, interpreter's report)."""
    os.makedirs(outdir, exist_ok=True)
    env = miri_env(config)

    def go(fs):
        p = subprocess.Popen(miri_cmd(config) + ["run", outdir, "1"] + fs, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return "timeout", ""
        return p.returncode, out

    groups = [g for g in (files[i::procs] for i in range(procs)) if g]
    with cf.ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(go, groups))
    for g, (rc, out) in zip(groups, res):
        if rc == 0:
            continue
        if "HARNESS-ERROR" in out:
            raise ToolError("harness error: " + out[-1000:])
        if rc == "timeout":
            raise Unavailable("no end within %d s" % timeout)
        for f in g:
            o = os.path.join(outdir, os.path.basename(f))
            n = sum(1 for _ in open(o)) if os.path.exists(o) else 0
            if n < sum(1 for _ in open(f)):
                m = re.search(r"error: (.*)", out)
                return f, m.group(1) if m else "interpreter ended with %s" % rc, out[-4000:]
    return None


# --------------------------------------------------------------------- TLC
def tlc(module, cfg, env, work, workers=NCPU, timeout=600, extra=(), heap=None):
    """Runs TLC; returns (ok, stdout lines, stats)."""
    meta = os.path.join(work, "meta-%s-%s" % (os.path.basename(module), hashlib.md5(repr((cfg, sorted(env.items()))).encode()).hexdigest()[:8]))
    e = dict(os.environ)
    e.update(env)
    if heap:
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:ParallelGCThreads=2" % heap
    cmd = ["tlc", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"] + list(extra) + [module]
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise ToolError("TLC timed out on %s after %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    lines = out.split("\n")
    st = {"module": module, "config": os.path.basename(cfg), "wall_s": round(time.time() - t0, 1), "states": 0, "transitions": 0, "depth": 0}
    for ln in lines:
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", ln)
        if m:
            st["transitions"] = int(m.group(1).replace(",", ""))
            st["states"] = int(m.group(2).replace(",", ""))
        m = re.match(r"The depth of the complete state graph search is (\d+)", ln)
        if m:
            st["depth"] = int(m.group(1))
        m = re.match(r"The number of states generated: ([\d,]+)", ln)     # simulation
        if m:
            st["transitions"] = st["states"] = int(m.group(1).replace(",", ""))
    ok = p.returncode == 0
    return ok, lines, st


def tlc_tail(lines):
    return "\n".join(x for x in lines if not x.startswith('"'))[-3000:]


def unprint(line):
    """A TLC-printed string value back to the string."""
    return json.loads(line)


def generate(module, env, work, cfg=None, simulate=None, seed=1, timeout=600, heap=None):
    """Runs a generator; returns (refs, scripts, stats)."""
    extra = []
    if simulate:
        num, depth = simulate
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)]
    ok, lines, st = tlc(module + ".tla", cfg or module + ".cfg", env, work, workers=1, timeout=timeout, extra=extra, heap=heap)
    if not ok:
        raise ToolError("generator %s failed:\n%s" % (module, tlc_tail(lines)))
    refs, scripts = [], []
    for ln in lines:
        if ln.startswith('"SCRIPT '):
            scripts.append(json.loads(json.loads(ln)[7:]))
        elif ln.startswith('"REF '):
            refs.append(json.loads(json.loads(ln)[4:]))
    st["scripts"] = len(scripts)
    st["env"] = {k: v for k, v in env.items() if not k.startswith("VERIF")}
    if not scripts:
        raise ToolError("generator %s produced no scripts" % module)
    return refs, scripts, st


# ----------------------------------------------------------- design models
def with_constants(cfg, consts, work):
    """A configuration file with other values for some constants."""
    if not consts:
        return cfg
    t = open(os.path.join(SPEC, cfg)).read()
    for k, v in consts.items():
        t, n = re.subn(r"(?m)^(  %s = ).*$" % k, lambda m: m.group(1) + v, t)
        if n != 1:
            raise ToolError("%s has no constant %s" % (cfg, k))
    f = os.path.join(work, "%s-%s.cfg" % (cfg[:-4], hashlib.md5(t.encode()).hexdigest()[:8]))
    with open(f, "w") as h:
        h.write(t)
    return f


def design(module, cfg, consts, work, timeout=600):
    """Explores a design model; returns its statistics, or raises ToolError: the specification
    is wrong then, which says nothing about the code."""
    ok, lines, st = tlc(module + ".tla", with_constants(cfg, consts, work), {}, work, timeout=timeout, heap="8g")
    if not ok:
        raise ToolError("design model %s (%s) fails:\n%s" % (module, cfg, tlc_tail(lines)))
    st.update(module=module, config=cfg, constants=consts)
    return st


APALACHE = [["--init=Init", "--inv=Inv", "--length=0"], ["--init=Inv", "--inv=Inv", "--length=1"], ["--init=Inv", "--inv=Goal", "--length=0"]]


def unbounded(module, work, timeout=300):
    """Apalache: Inv holds initially, is inductive, and implies Goal."""
    t0 = time.time()
    for i, a in enumerate(APALACHE):
        p = subprocess.Popen(["apalache-mc", "check"] + a + ["--out-dir=" + os.path.join(work, "apa"), module + ".tla"], cwd=os.path.join(SPEC, "unbounded"),
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            out = "no answer within %d s" % timeout
        if "The outcome is: Error" in out:
            raise ToolError("Apalache does not accept %s %s:\n%s" % (module, a, out[-1500:]))
        if "The outcome is: NoError" not in out:      # it decides nothing about the code
            return {"module": "unbounded/" + module, "tool": "Apalache", "note": "not run to its end: " + out[-300:]}
    return {"module": "unbounded/" + module, "tool": "Apalache", "inductive_invariant": True, "wall_s": round(time.time() - t0, 1)}


# --------------------------------------------------------------- execution
RESET = '{"op":"reset"}'


def dump(o):
    return json.dumps(o, separators=(",", ":"))


def weight(script):
    return sum(op["in"][2] if "in" in op and op["op"] != "par" else 8 for op in script)


def write_shards(scripts, refs, nshards, work, contiguous):
    """Scripts go to files; each file starts with the reference scripts."""
    d = os.path.join(work, "scripts")
    os.makedirs(d, exist_ok=True)
    nshards = max(1, min(nshards, len(scripts)))
    if contiguous:
        per = (len(scripts) + nshards - 1) // nshards
        groups = [scripts[i * per:(i + 1) * per] for i in range(nshards)]
        groups = [g for g in groups if g]
    else:
        groups = [scripts[i::nshards] for i in range(nshards)]
    files = []
    for i, g in enumerate(groups):
        f = os.path.join(d, "s%03d.ndjson" % i)
        with open(f, "w") as h:
            for s in list(refs) + g:
                h.write(RESET + "\n")
                for op in s:
                    h.write(dump(op) + "\n")
        files.append(f)
    return files


def run_harness(binary, files, outdir, threads=NCPU, timeout=240, guard=False, procs=False):
    """Executes script files. Returns None, or a crash description (file, kind)."""
    os.makedirs(outdir, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:color=never")
    env.pop("HARNESS_GUARD", None)
    if guard:
        env["HARNESS_GUARD"] = "1"

    def go(fs, th, to):
        p = subprocess.Popen([binary, "run", outdir, str(th)] + fs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True, env=env)
        try:
            out, _ = p.communicate(timeout=to)
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return "hang", ""

    if guard or procs:       # processes rather than threads: mapping memory is serial within one
        groups = [g for g in (files[i::threads] for i in range(threads)) if g]
        with cf.ThreadPoolExecutor(threads) as ex:
            res = list(ex.map(lambda g: go(g, 1, timeout), groups))
        rc, out = next((r for r in res if r[0] != 0), (0, ""))
    else:
        rc, out = go(files, threads, timeout)
    if rc == 0:
        return None
    if rc == 3:
        raise ToolError("harness error: " + out[-1000:])
    # the library crashed or hung: find which script does it
    pending = []
    for f in files:
        o = os.path.join(outdir, os.path.basename(f))
        n = sum(1 for _ in open(o)) if os.path.exists(o) else 0
        m = sum(1 for _ in open(f))
        if n < m:
            pending.append((0 if n else 1, f))
    for _, f in sorted(pending):
        rc, out = go([f], 1, 60)
        if rc == 3:
            raise ToolError("harness error: " + out[-1000:])
        if rc != 0:
            m = re.search(r"ERROR: (AddressSanitizer: [^\n]*)", out)
            where = re.findall(r"#\d+ 0x\S+ in (\S*blake2s\S*)", out)
            return f, ("hang (no result after 60 s)" if rc == "hang" else "crash (exit status %s)%s%s" % (
                rc, ": " + m.group(1) if m else "", " in " + where[0] if where else ""))
    raise ToolError("harness ended with %s but no script reproduces it: %s" % (rc, out[-500:]))


def script_around(ops, i):
    """The script (from the last reset) containing line i (0-based), up to i."""
    st = i
    while st > 0 and ops[st].get("op") not in ("reset", "config"):
        st -= 1
    names = [o.get("op") for o in ops[st:i + 1]]
    if "fork" in names and "join" not in names[len(names) - 1 - names[::-1].index("fork"):]:
        while i + 1 < len(ops) and ops[i]["op"] != "join":      # concurrent calls belong together
            i += 1
    return ops[st:i + 1]


def save_replay(prop, obj):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(f, "w") as fh:
        json.dump(obj, fh, indent=1)
    return f


# -------------------------------------------------------------- validation
def validate1(files, mode, work, timeout, workers, module, tag, env):
    man = os.path.join(work, "manifest-%s.json" % tag)
    with open(man, "w") as h:
        json.dump(files, h)
    ok, lines, st = tlc(module + ".tla", module + ".cfg", dict({"MANIFEST": man, "MODE": mode, "COUNTS": "abs", "DIGESTS": "on"}, **env), work, workers=workers, timeout=timeout, heap="2500m")
    rej = []
    for ln in lines:
        if ln.startswith('"REJECT '):
            r = json.loads(json.loads(ln)[7:])
            rej.append((files[r["t"] - 1], r["l"] - 1, dump(r["expected"])))
    if not ok and not rej:
        raise ToolError("trace validation did not run to its end:\n" + tlc_tail(lines))
    if ok and rej:
        raise ToolError("trace validation accepted although it rejected an event")
    return rej, st


def validate(files, mode, work, timeout=600, module="Trace", procs=NCPU, env={}):
    """Trace validation, spread over several TLC processes (reading traces is sequential in
    TLC). Returns (rejections, stats); a rejection is (file, line index, expected)."""
    t0 = time.time()
    groups = [g for g in (files[i::procs] for i in range(procs)) if g]
    with cf.ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(lambda ig: validate1(ig[1], mode, work, timeout, 1, module, str(ig[0]), env), enumerate(groups)))
    rej = sorted(set(r for a, _ in res for r in a))
    st = {"states": sum(s["states"] for _, s in res), "transitions": sum(s["transitions"] for _, s in res),
          "wall_s": round(time.time() - t0, 1)}
    return rej, st


def establishing(ops, l, exp):
    """In modes "fun"/"hist" the expected value was fixed by an earlier call: the scripts that
    fixed it (without results), and their configurations."""
    want = []
    ev = ops[l]
    if isinstance(exp, list) and exp and "d" in ev:
        want = [x for i, x in enumerate(exp) if x != ev["d"][i]] if isinstance(exp[0], list) else [exp]
    elif ev["op"] == "cnt":
        want = [exp]
    refs, cfgs, cfg = [], [], None
    for w in want[:2]:
        for i, o in enumerate(ops[:l]):
            if o["op"] == "config":
                cfg = o["name"]
            elif o.get("d") == w or o.get("c") == w or (isinstance(o.get("d"), list) and w in o["d"]):
                sc = script_around(ops, i)
                if sc not in refs:
                    refs.append(sc)
                    cfgs.append(cfg)
                break
    return refs, cfgs


def conformance(prop, mode, configs, refs, scripts, work, nshards=16, contiguous=False, timeout=600, label="", module="Trace", env={}, memory=False, procs=False):
    """scripts on the real library in every configuration, all traces against the specification.
    memory: also every access is watched (guard pages, sanitizer, interpreter)."""
    notes = []
    interp = [c for c in configs if c in MIRI]
    with cf.ThreadPoolExecutor(4) as ex:
        setups = {c: ex.submit(miri_setup, c) for c in interp}
    for c in list(interp):
        try:
            setups[c].result()
        except (Unavailable, subprocess.TimeoutExpired, OSError) as u:
            interp.remove(c)
            if LIBRARY in str(u):
                not_built(c, str(u), prop, notes)
                continue
            notes.append("configuration %s not run: %s" % (c, u))
            log(notes[-1])
    configs = [c for c in configs if c not in MIRI or c in interp]
    bins = build_all([c for c in configs if c not in MIRI], prop, notes)
    configs = [c for c in configs if c in MIRI or c in bins]
    sub = os.path.join(work, "conf" + label)
    os.makedirs(sub, exist_ok=True)
    files = write_shards(scripts, refs, nshards, sub, contiguous)
    traces = [os.path.join(sub, "trace-" + os.path.basename(f)) for f in files]
    for t in traces:
        open(t, "w").close()
    walls = {}
    for c in list(configs):
        out = os.path.join(sub, "out-" + c)
        t1 = time.time()
        if c in MIRI:
            try:
                crash = run_miri(c, files, out, timeout)
                if crash and not (memory and ACCESS.search(crash[1])) and not FEATURES.search(crash[1]):
                    # the interpreter refuses the program for another reason: not a matter of this property
                    raise Unavailable(crash[1])
            except Unavailable as u:
                notes.append("configuration %s not compared: %s" % (c, u))
                log(notes[-1])
                configs = [x for x in configs if x != c]
                continue
        else:
            crash = run_harness(bins[c][0], files, out, guard=memory, procs=procs)
        if crash:
            f, kind = crash[:2]
            n = sum(1 for _ in open(os.path.join(out, os.path.basename(f))))
            ops = [json.loads(x) for x in open(f)]
            obj = {"property": prop, "configuration": c, "kind": kind, "script": script_around(ops, min(n, len(ops) - 1)),
                   "memory": memory, "expected": "every call returns or panics"}
            if len(crash) > 2:
                obj["report"] = crash[2]
            raise Violation("%s in configuration %s" % (kind, c), save_replay(prop, obj))
        walls[c] = round(time.time() - t1, 1)
        for f, t in zip(files, traces):
            with open(t, "a") as h, open(os.path.join(out, os.path.basename(f))) as g:
                h.write('{"op":"config","name":"%s"}\n' % c)
                shutil.copyfileobj(g, h)
    rej, st = validate(traces, mode, sub, timeout=timeout, module=module, env=env)
    info = {"scripts": len(scripts), "reference_scripts": len(refs), "configurations": list(configs),
            "traces": len(traces), "behaviours_validated": len(scripts) * len(configs), "events": st["states"] - len(traces),
            "validation_wall_s": st["wall_s"], "execution_wall_s": walls, "states": st["states"], "transitions": st["transitions"],
            "compression_implementations_called_directly": all(b[1] for b in bins.values())}
    if notes:
        info["notes"] = notes
    if rej:
        t, l, exp = rej[0]
        ops = [json.loads(x) for x in open(t)]
        cfgname = [o["name"] for o in ops[:l + 1] if o["op"] == "config"][-1]
        obj = {"property": prop, "configuration": cfgname, "mode": mode, "rejections": len(rej), "validation": dict(env, module=module), "failing_event": ops[l],
               "expected": json.loads(exp), "script": script_around(ops, l)}
        if module == "Trace" and mode != "abs":
            rs, cs = establishing(ops, l, obj["expected"])
            obj["references"] = rs
            obj["configurations"] = sorted(set(cs + [cfgname]))
        elif module == "SameTrace":
            obj["configurations"] = [configs[0], cfgname]
        raise Violation("%d trace(s) rejected; first: %s in configuration %s" % (len(rej), ops[l]["op"], cfgname), save_replay(prop, obj))
    return info


def long_run(prop, work, env, timeout, only=None, gen="GenLong", focus=None, mode="abs", counts="abs", digests="on"):
    """Scripts with long messages (up to and beyond 4 GiB), validated by LongTrace; in mode "abs"
    against witness chains. focus: what to generate; by default the name of the configuration.
    only: a list of scripts to run instead of the generated ones."""
    bins = build_all(BOTH, prop)
    configs = [c for c in BOTH if c in bins]
    sub = os.path.join(work, "long-%s" % focus)
    os.makedirs(sub, exist_ok=True)
    want = [focus] if focus else list(configs)
    witnessed = mode == "abs" and digests == "on"
    with cf.ThreadPoolExecutor(3) as ex:
        made = dict(zip(want + ["wit"], ex.map(lambda f: generate(gen, dict(env, FOCUS=f, FOR=focus or ""), work), want + ["wit"] * witnessed)))
    gens = [m[2] for m in made.values()]
    files = {}
    for c in configs:
        d = os.path.join(sub, "in-" + c)
        os.makedirs(d)
        files[c] = []
        for i, s in enumerate(only or made[focus or c][1]):
            files[c].append(os.path.join(d, "s%02d.ndjson" % i))
            with open(files[c][-1], "w") as h:
                h.write("\n".join([RESET] + [dump(op) for op in s]) + "\n")
    wf = os.path.join(sub, "wit.ndjson")
    outs = {c: os.path.join(sub, "out-" + c) for c in configs}
    witness = ""
    t0 = time.time()
    with cf.ThreadPoolExecutor(3) as ex:
        jobs = {c: ex.submit(run_harness, bins[c][0], files[c], outs[c], 8, timeout) for c in configs}
        if witnessed:
            with open(wf, "w") as h:
                h.write("\n".join(dump(op) for op in made["wit"][1][0]) + "\n")
            wjob = ex.submit(run_harness, bins[configs[0]][0], [wf], os.path.join(sub, "out-wit"), 1, timeout)
            if wjob.result():
                raise ToolError("the witness computation failed: %s" % (wjob.result(),))
            witness = open(os.path.join(sub, "out-wit", "wit.ndjson")).read()
        crashes = {c: j.result() for c, j in jobs.items()}
    how = {"property": prop, "long": {"gen": gen, "focus": focus, "mode": mode, "counts": counts, "digests": digests,
                                       "tier": env["VERIF_TIER"], "seed": env["VERIF_SEED"]}}
    for c, crash in crashes.items():
        if crash:
            f, kind = crash
            ops = [json.loads(x) for x in open(f)]
            raise Violation("%s in configuration %s" % (kind, c), save_replay(prop, dict(how, **{
                "configuration": c, "kind": kind, "script": ops[1:], "expected": "every call returns"})))
    wall = round(time.time() - t0, 1)
    recorded = [(c, f) for c in configs for f in files[c]]
    traces = []
    for i in range(min(NCPU, len(recorded))):      # each with the witnesses once
        traces.append(os.path.join(sub, "trace%d.ndjson" % i))
        with open(traces[-1], "w") as h:
            h.write(witness)
            for c, f in recorded[i::NCPU]:
                h.write('{"op":"config","name":"%s"}\n' % c)
                h.write(open(os.path.join(outs[c], os.path.basename(f))).read())
    rej, st = validate(traces, mode, sub, timeout=timeout, module="LongTrace", env={"COUNTS": counts, "DIGESTS": digests})
    info = {"generators": [[gen, f] for f in want], "mode": mode, "COUNTS": counts, "DIGESTS": digests,
            "scripts": len(recorded), "configurations": configs, "traces": len(traces), "behaviours_validated": len(recorded),
            "events": st["states"] - len(traces), "states": st["states"], "transitions": st["transitions"],
            "validation_wall_s": st["wall_s"], "execution_wall_s": wall}
    if witnessed:
        info["witness_links_checked_by_tlc"] = sum(len(x) for w in witness.splitlines() for x in json.loads(w)["links"])
    for t, l, exp in rej:
        e = json.loads(exp)
        if e in ("witness", "script"):
            raise ToolError("%s rejected: %s line %d" % (e, t, l))
    if rej:
        t, l, exp = rej[0]
        ops = [json.loads(x) for x in open(t)]
        name = [o["name"] for o in ops[:l + 1] if o["op"] == "config"][-1]
        obj = dict(how, **{"configuration": name, "rejections": len(rej), "failing_event": ops[l],
                           "expected": json.loads(exp), "script": script_around(ops, l)})
        raise Violation("%d trace(s) rejected; first: %s in configuration %s" % (len(rej), ops[l]["op"], name), save_replay(prop, obj))
    shutil.rmtree(sub, ignore_errors=True)
    return gens, info


def sample_of(scripts, k=3, limit=1500):
    res = []
    if not scripts:
        return res
    for i in range(k):
        s = dump(scripts[(i * len(scripts)) // k])
        res.append(s if len(s) <= limit else s[:limit] + "...")
    return res


def replay(path):
    """Runs the script of a replay file on the current tree and validates it; 0 accepted, 1 rejected."""
    r = json.load(open(path))
    cfgs = r.get("configurations") or ([r["configuration"]] if r.get("configuration") in CONFIGS or r.get("configuration") in MIRI else ["std"])
    work = os.path.join(BUILD, "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    names = {"ok", "panic", "d", "c", "eq", "ne", "wn", "out", "skip", "dx", "dy", "px", "py", "bytes", "asref", "hex", "dbg", "n", "path", "mem", "send", "sync", "va", "vb", "res"}

    def clean(sc):
        return [{k: v for k, v in op.items() if k not in names and not (op["op"] == "heqd" and k == "v")}
                for op in sc if op["op"] not in ("reset", "config")]
    script = clean(r["script"])
    if r.get("long"):
        try:
            _, info = long_run(r["property"], work, {"VERIF_TIER": r["long"].pop("tier", "quick"), "VERIF_SEED": r["long"].pop("seed", "1")}, 3000, only=[script], **r["long"])
        except Violation as v:
            print("rejected: %s (see %s)" % (v.what, v.replay))
            return 1
        print("accepted: %s" % info)
        return 0
    env = dict(r.get("validation", {}))
    module = env.pop("module", "Trace")
    try:
        info = conformance(r["property"], r.get("mode", "fun"), cfgs, [clean(x) for x in r.get("references", [])], [script], work, nshards=1,
                           label="", module=module, env=env, memory=r.get("memory", False))
    except Violation as v:
        print("rejected: %s (see %s)" % (v.what, v.replay))
        return 1
    print("accepted: %s" % info)
    return 0
