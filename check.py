#!/usr/bin/env python3
"""Runs the monitors for one property against /repo's current tree.

  check.py C01                 quick   (or the tier in VERIF_TIER)
  check.py C01 --thorough      thorough
  check.py --replay FILE       repeats a recorded violation
  check.py --setup             builds everything the checks need

exit 0: held on everything observed; 1 (+ VIOLATION line): violated;
2: no verdict (the build failed, a watchdog fired, the monitor itself failed).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PFS_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import RULES, STAGES, LEVELS, ASSUME  # noqa: E402

TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
BUDGET = {"quick": 840, "thorough": 6 * 3600}


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------- dictionary

def mine():
    """Integer and string constants of the sources under test, so that the
    workload also visits the numbers and names the code treats specially."""
    ints, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        gen = f.endswith("parquet_format.rs")
        text = open(f, encoding="utf-8", errors="replace").read()
        text = re.sub(r"//[^\n]*", "", text)
        num = r"(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?"

        def val(s):
            return int(s.replace("_", ""), 0) if not re.fullmatch(r"0\d+", s) else int(s)

        for m in re.finditer(r"(?<![\w.])" + num + r"(?![\w.])", text):
            ints.add(val(m.group(1)))
        for m in re.finditer(r"(?<![\w.])%s\s*(<<|\*|\+|-)\s*%s" % (num, num), text):
            a, op, b = val(m.group(1)), m.group(2), val(m.group(3))
            if op == "<<" and b < 64:
                ints.add(a << b)
            elif op == "*":
                ints.add(a * b)
            elif op == "+":
                ints.add(a + b)
            elif op == "-":
                ints.add(a - b)
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', text):
            s = m.group(1)
            if len(s) <= 64 and not (gen and re.fullmatch(r"[A-Za-z]+", s) and len(strs) > 400):
                strs.add(s)
    ints = sorted(x for x in ints if -(1 << 63) <= x < (1 << 63))
    os.makedirs(TARGET, exist_ok=True)
    p = os.path.join(TARGET, "dict.txt")
    tmp = p + ".%d" % os.getpid()
    with open(tmp, "w") as o:
        for i in ints:
            o.write("i %d\n" % i)
        for s in sorted(strs):
            if "\n" not in s:
                o.write("s %s\n" % s)
    os.replace(tmp, p)
    return p, len(ints) + len(strs)


# ------------------------------------------------------------------ builds

def base_env():
    e = dict(os.environ)
    e.setdefault("CARGO_NET_OFFLINE", "true")
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("CARGO_BUILD_TARGET", None)
    return e


HOST = "x86_64-unknown-linux-gnu"
NOASYNC = ["--no-default-features"]


def variant(name):
    """(cargo arguments, environment, path of the binary)"""
    t = TARGET
    if name == "checked":
        return ["build", "--profile", "checked", "--target-dir", t], {}, t + "/checked/pfs-monitor"
    if name == "release":
        return ["build", "--profile", "release", "--target-dir", t], {}, t + "/release/pfs-monitor"
    if name == "noasync":
        return ["build", "--profile", "checked", "--target-dir", t + "/noasync"] + NOASYNC, {}, t + "/noasync/checked/pfs-monitor"
    if name == "debug":
        return ["build", "--profile", "dev", "--target-dir", t], {}, t + "/debug/pfs-monitor"
    if name in ("asan", "tsan", "msan"):
        flag = {"asan": "address", "tsan": "thread", "msan": "memory"}[name]
        td = t + "/" + name
        a = ["+nightly", "build", "--profile", "san", "--target", HOST, "--target-dir", td]
        rf = "-Zsanitizer=%s -Cforce-frame-pointers=yes" % flag
        if name != "asan":
            a += ["-Zbuild-std"]
        if name == "msan":
            rf += " -Zsanitizer-memory-track-origins"
        return a, {"RUSTFLAGS": rf}, td + "/" + HOST + "/san/pfs-monitor"
    if name.startswith("miri"):
        return None, {}, None
    raise KeyError(name)


def sources():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*"), recursive=True)) + [os.path.join(REPO, "Cargo.toml")]:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def freshen(name, profile_dir):
    """cargo goes by modification times; what was built from other contents
    must not be used whatever the times say"""
    stamp = os.path.join(TARGET, "built-from." + name)
    now = sources()
    try:
        if open(stamp).read() == now:
            return lambda: None
    except OSError:
        pass
    for d in glob.glob(profile_dir + "/.fingerprint/parquet-format-safe-*"):
        shutil.rmtree(d, ignore_errors=True)

    def done():
        with open(stamp, "w") as o:
            o.write(now)
    return done


def build(name):
    args, env, binary = variant(name)
    if args is None:
        return None
    if name in prepared:
        return binary
    e = base_env()
    e.update(env)
    cmd = ["cargo"] + args[:1] + args[1:]
    if args[0].startswith("+"):
        cmd = ["cargo", args[0], args[1], "--offline"] + args[2:]
    else:
        cmd = ["cargo", args[0], "--offline"] + args[1:]
    t = time.time()
    done = freshen(name, os.path.dirname(binary))
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("\n".join(p.stdout.splitlines()[-60:]))
        raise Inconclusive("build of variant %s failed" % name)
    done()
    prepared.add(name)
    log("built %s in %.1fs" % (name, time.time() - t))
    return binary


def prepare(names, at_once=4):
    """builds several variants side by side"""
    with concurrent.futures.ThreadPoolExecutor(at_once) as pool:
        for f in [pool.submit(command, n) for n in dict.fromkeys(names)]:
            f.result()


MIRI_TARGETS = {"miri": HOST, "miri-i686": "i686-unknown-linux-gnu", "miri-s390x": "s390x-unknown-linux-gnu"}


prepared = set()


def command(name):
    """argv prefix and environment that run the monitor binary in a variant"""
    e = base_env()
    if name.split("+")[0] in MIRI_TARGETS:
        v = name.split("+")[0]
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", TARGET + "/miri",
               "--manifest-path", HARNESS + "/Cargo.toml", "--target", MIRI_TARGETS[v]]
        if v not in prepared:
            t = time.time()
            done = freshen(v, TARGET + "/miri/" + MIRI_TARGETS[v] + "/debug")
            p = subprocess.run(cmd + ["--", "ready"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if "HARNESS-READY" not in p.stdout:
                print("\n".join(p.stdout.splitlines()[-60:]))
                raise Inconclusive("build of variant %s failed" % name)
            done()
            prepared.add(v)
            log("built %s in %.1fs" % (name, time.time() - t))
        return cmd + ["--"], e
    b = build(name)
    if name == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=1:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1"
    if name == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=86:second_deadlock_stack=1"
    if name == "msan":
        e["MSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=86"
    return [b], e


# --------------------------------------------------------------------- runs

SAN = re.compile(r"(ERROR: (Address|Leak|Memory|Thread)Sanitizer: .*|WARNING: (Thread|Memory)Sanitizer: .*|error: Undefined Behavior.*|error: memory leaked.*|error: .*data race.*|error: deadlock.*)", re.I)
# too much memory or stack is a matter of other properties (and of the
# sanitizer's own limits), not of memory safety
NOT_SAN = re.compile(r"stack-overflow|allocation-size-too-big|out-of-memory|requested allocation size|failed to allocate|SEGV on unknown address.*\bSP\b|fatal error", re.I)


def sanitizer_says(text):
    for m in SAN.finditer(text):
        if not NOT_SAN.search(m.group(1)):
            return m.group(1)
    return None


def markers(prefix):
    r = []
    for f in glob.glob(prefix + ".*"):
        s = open(f, errors="replace").read().split()
        if len(s) >= 2:
            r.append((s[0], int(s[1])))
    return r


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fails = []
        self.stages = []
        self.tmp = os.path.join(TARGET, "run", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.dict, self.mined = mine()

    def left(self):
        return BUDGET[self.tier] - (time.time() - T0)

    def stage(self, st, only=None):
        """st: build, and optionally prop, tier, args, shards, timeout"""
        cmd, env = command(st["build"])
        if "digest" in st and "MIRIFLAGS" in env:
            # these runs look for different results only
            env["MIRIFLAGS"] += " -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check -Zmiri-disable-data-race-detector"
        if st.get("noleaks"):
            env["ASAN_OPTIONS"] += ":detect_leaks=0"
        env["PFS_DICT"] = self.dict
        n = 1 if only else st.get("shards", 1)
        t = time.time()
        procs = []
        for k in range(n):
            base = os.path.join(self.tmp, "%s.%d" % ("only" if only else "s", k))
            for f in glob.glob(base + "*"):
                os.unlink(f)
            argv = cmd + [st.get("prop", self.prop), "--seed", str(self.seed), "--tier", st.get("tier", self.tier),
                          "--out", base + ".json", "--marker", base + ".mark"] + st.get("args", [])
            if n > 1:
                argv += [st.get("by", "--shard"), "%d/%d" % (k, n)]
            if only:
                argv += ["--only", only[0], str(only[1])]
            o = open(base + ".out", "w")
            procs.append((base, o, subprocess.Popen(argv, env=env, stdout=o, stderr=subprocess.STDOUT, start_new_session=True)))
        end = t + min(st.get("timeout", 10 ** 9), max(20, self.left()))
        reps = []
        try:
            for base, o, p in procs:
                try:
                    rc = p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    raise Inconclusive("watchdog: stage %s ran longer than %.0f s" % (st["build"], time.time() - t))
                o.close()
                reps.append(self.one(st, rc, open(base + ".out", errors="replace").read(), base, only))
                if reps[-1]["fails"]:
                    break
        finally:
            for base, o, p in procs:
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
        rep = merge(reps)
        rep["_wall"] = time.time() - t
        return rep

    def one(self, st, rc, text, base, only):
        rep = None
        if os.path.exists(base + ".json"):
            try:
                rep = json.load(open(base + ".json"))
            except ValueError:
                pass
        if rc == 3 or "HARNESS-ERROR" in text:
            print(text[-3000:])
            raise Inconclusive("the monitor itself failed in stage %s" % st["build"])
        if rc in (0, 1) and rep is not None and (rc == 1) == bool(rep["fails"]):
            rep["_out"] = text
            return rep
        return self.crash(st, rc, text, base + ".mark", only)

    def crash(self, st, rc, text, mark, only):
        m = sanitizer_says(text)
        ms = markers(mark)
        tail = "\n".join(text.splitlines()[-40:])
        memory = st.get("memory")  # only what a sanitizer says counts
        if "LeakSanitizer has encountered a fatal error" in text and not st.get("noleaks"):
            log("LeakSanitizer cannot run here; once more without it")
            return self.stage(dict(st, noleaks=True), only)
        if re.search(r"error: unsupported operation|error: could not compile|out of memory \(allocated", text) and not m:
            print(tail)
            raise Inconclusive("stage %s could not be run" % st["build"])
        if memory and not m:
            print(tail)
            raise Inconclusive("stage %s died (status %s) without a word from the sanitizer: see the checks of crashes" % (st["build"], rc))
        if m:
            k = text.find(m)
            about = text[k:k + 2500]
        else:
            about = tail[-1500:]
        what = m or "the process died (status %s)" % rc
        if only:
            return dict(fails=[dict(group=only[0], idx=only[1], msg=what + ":\n" + about)], crashed=True)
        # whose case was it?
        for g, i in ms:
            rep = self.stage(st, only=(g, i))
            if rep["fails"]:
                return dict(fails=rep["fails"])
        if m:
            g, i = ms[0] if ms else ("?", 0)
            return dict(fails=[dict(group="?", idx=0, msg="(while running %s %s and others) " % (g, i) + what + ":\n" + about)])
        print(tail)
        raise Inconclusive("stage %s died (status %s) and none of the cases it was running does so again" % (st["build"], rc))


def merge(reps):
    if len(reps) == 1:
        return reps[0]
    r = dict(fails=[], evaluations=0, distinct=0, counts={}, maxes={}, groups={}, samples=[], digest={}, _out="")
    for x in reps:
        r["_out"] += x.get("_out", "")
        r["fails"] += x["fails"]
        r["evaluations"] += x.get("evaluations", 0)
        r["distinct"] += x.get("distinct", 0)
        for k, v in x.get("counts", {}).items():
            r["counts"][k] = r["counts"].get(k, 0) + v
        for k, v in x.get("maxes", {}).items():
            r["maxes"][k] = max(r["maxes"].get(k, 0), v)
        r["groups"].update(x.get("groups", {}))
        r["digest"].update(x.get("digest", {}))
        r["samples"] += x.get("samples", [])[:2]
    return r


def run_check(prop, tier, seed):
    r = Run(prop, tier, seed)
    reports = []
    digests = {}
    violation = None
    try:
        prepare([st["build"] for st in STAGES(prop, tier)])
        for st in STAGES(prop, tier):
            rep = r.stage(st)
            rep["_stage"] = st
            reports.append(rep)
            if "evaluations" in rep:
                log("%s %-8s %9d executions, %8d distinct, %.1fs" % (prop, st["build"], rep["evaluations"], rep["distinct"], rep["_wall"]))
                if rep["evaluations"] == 0 and not rep["fails"]:
                    raise Inconclusive("stage %s observed nothing" % st["build"])
            if rep["fails"]:
                violation = (st, rep["fails"][0])
                break
            if "digest" in st:
                ref = digests.setdefault(st["digest"], (st, rep["digest"]))
                f = compare(r, ref, (st, rep["digest"]))
                if f:
                    violation = (st, f)
                    break
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)
    evidence(prop, tier, seed, reports, r, violation)
    if violation:
        st, f = violation
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join("replays", "%s-%d-%s.json" % (prop, seed, st["build"]))
        json.dump(dict(property=prop, seed=seed, tier=tier, stage=st, group=f["group"], idx=f["idx"], msg=f["msg"]),
                  open(os.path.join(HERE, rp), "w"), indent=1)
        print("%s, group %s, case %s: %s" % (st["build"], f["group"], f["idx"], f["msg"][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def compare(r, a, b):
    """first difference between what two builds observed, or None; a, b: (stage, digests)"""
    la, lb = a[1], b[1]
    need = [k for k in la if not k.endswith("+async") and (k.endswith("/all") or ("native" in k and any("native" in x for x in lb)))]
    missing = [k for k in need if k not in lb]
    if missing or not need:
        raise Inconclusive("stage %s lacks observations %s" % (b[0]["build"], missing[:3]))
    for k in sorted(la):
        if k not in lb or la[k] == lb[k]:
            continue
        # which case is it?
        msg = "%s and %s observe different things in block %s" % (a[0]["build"], b[0]["build"], k)
        block, kind = k.rsplit("/", 1)
        texts = []
        for st in (a[0], b[0]):
            st = dict(st, args=st.get("args", []) + ["--dump", block])
            try:
                out = r.stage(st)["_out"]
            except Inconclusive:
                break
            texts.append({l.split(" ", 3)[1]: l for l in out.splitlines() if l.startswith("OBS ") and l.split(" ", 3)[2] == kind})
        idx = 0
        if len(texts) == 2:
            for i in sorted(texts[0]):
                x, y = texts[0][i], texts[1].get(i, "nothing")
                if x != y:
                    n = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
                    n = max(0, n - 200)
                    msg += ", first in case %s:\n  %s: ...%s\n  %s: ...%s" % (i, a[0]["build"], x[n:n + 700], b[0]["build"], y[n:n + 700])
                    idx = int(i)
                    break
        return dict(group="digest", idx=idx, msg=msg)
    return None


def evidence(prop, tier, seed, reports, r, violation):
    ev = sum(x.get("evaluations", 0) for x in reports)
    di = sum(x.get("distinct", 0) for x in reports[:1]) if reports else 0
    samples, counts, maxes, stages = [], {}, {}, []
    for x in reports:
        samples += x.get("samples", [])
        for k, v in x.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        for k, v in x.get("maxes", {}).items():
            maxes[k] = max(maxes.get(k, 0), v)
        stages.append(dict(build=x["_stage"]["build"], tier=x["_stage"].get("tier", tier), groups=x.get("groups"), executions=x.get("evaluations"),
                           distinct=x.get("distinct"), seconds=round(x["_wall"], 1)))
    d = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, "exploration"),
             coverage=dict(evaluations=ev, distinct_nontrivial=di, rule=RULES[prop], samples=samples[:8] or ["none"],
                           observed=counts, maxima=maxes, stages=stages, constants_mined_from_source=r.mined),
             assumptions=ASSUME.get(prop, ASSUME["*"]), wall_s=round(time.time() - T0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def known(prop):
    for l in open(os.path.join(HERE, "known-findings"), encoding="utf-8"):
        if l.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + l[len("finding: "):].strip())


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--setup":
            mine()
            def one(v):
                try:
                    command(v)
                except Inconclusive as e:
                    # a check that needs it will say so itself
                    print("SETUP: %s" % e)
            with concurrent.futures.ThreadPoolExecutor(4) as pool:
                list(pool.map(one, ("asan", "tsan", "msan", "checked", "miri", "release", "debug", "noasync", "miri-i686", "miri-s390x")))
            return 0
        if a and a[0] == "--replay":
            d = json.load(open(a[1]))
            if d["group"] in ("digest", "?"):
                return run_check(d["property"], d["tier"], d["seed"])
            r = Run(d["property"], d["tier"], d["seed"])
            rep = r.stage(d["stage"], only=(d["group"], d["idx"]))
            shutil.rmtree(r.tmp, ignore_errors=True)
            for f in rep["fails"]:
                print(f["msg"])
                print("VIOLATION property=%s replay=%s" % (d["property"], a[1]))
            return 1 if rep["fails"] else 0
        prop = a[0]
        tier = "thorough" if "--thorough" in a or (os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in a) else "quick"
        rc = run_check(prop, tier, SEED)
        known(prop)
        log("%s: %s" % (prop, "held on everything observed" if rc == 0 else "VIOLATED"))
        return rc
    except Inconclusive as e:
        print("NO VERDICT: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
