#!/usr/bin/env python3
"""check.py PROPERTY | --setup

Decides one property of the crate in /repo by symbolic execution of its own code (see DESIGN.md).
Builds what it needs from /repo's current tree, writes evidence/<id>.json and, for a violation,
replays/<id>-<n>.json.  Exit 0: no counterexample; 1: VIOLATION (replayed on the real code)."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
T0 = time.time()
# a quick check has to answer within 900 s
END = T0 + (800 if TIER == "quick" else 6 * 3600)


def left(most):
    """Seconds a step may take: at most `most`, and no more than what is left."""
    return max(5.0, min(float(most), END - time.time()))


def sources():
    out = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Broken(Exception):
    """The check itself could not do its work."""


def cargo_build(name, crate, env=None, extra=()):
    """Builds crate into build/<name>; returns the target directory."""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = dict(ENV, CARGO_TARGET_DIR=target, **(env or {}))
        # cargo goes by modification times; make it go by content
        stamp, now = os.path.join(target, ".repo-digest"), digest()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old and old != now:
            subprocess.run(["cargo", "clean", "--offline", "-p", "vecmat"], cwd=crate, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q", *extra], cwd=crate, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken("building %s failed:\n%s" % (name, "\n".join(
                l for l in r.stdout.splitlines() if not l.startswith("warning"))[-4000:]))
        with open(stamp, "w") as f:
            f.write(now)
    return target


# ---------------------------------------------------------------- parts

class Part:
    """What one engine reports: obligations, undecided ones, violations."""

    def __init__(self, name):
        self.name = name
        self.goals = self.discharged = self.queries = self.paths = self.branches = 0
        self.solver_s = 0.0
        self.witnesses = 0
        self.cross = 0
        self.terms = 0
        self.harnesses = []
        self.violations = []   # dict(harness, label, detail, model, replay)
        self.undecided = []
        self.notes = []
        self.samples = []
        self.wall_s = 0.0


def symx_part(prop):
    target = cargo_build("symx", os.path.join(ROOT, "symx", "main"))
    return symx_run(prop, Part("symx"), os.path.join(target, "debug", "symx"), ENV, target)


def shadow_build():
    """The crate again, with the names f32 and f64 standing for the symbolic scalars."""
    src = os.path.join(BUILD, "shadow-src")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".shadow-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = {}
        for f in sources():
            with open(f) as fh:
                text = fh.read()
            if f.endswith(".rs"):
                text += "\n#[allow(unused_imports)]\nuse symcore::{F32 as f32, F64 as f64};\n"
            elif f == os.path.join(REPO, "Cargo.toml"):
                text = text.replace("[dependencies]\n", "[dependencies]\nsymcore = { path = \"%s\", default-features = false }\n"
                                    % os.path.join(ROOT, "symx", "core"), 1)
            want[os.path.relpath(f, REPO)] = text
        if os.path.isdir(src):
            for d, _, fs in os.walk(src):
                for f in fs:
                    if os.path.relpath(os.path.join(d, f), src) not in want:
                        os.remove(os.path.join(d, f))
        for f, text in want.items():
            f = os.path.join(src, f)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.exists(f) or open(f).read() != text:
                with open(f, "w") as fh:
                    fh.write(text)
    return cargo_build("shadow", os.path.join(ROOT, "symx", "shadow"))


def shadow_part(prop):
    p = Part("symx-shadow")
    real = cargo_build("symx", os.path.join(ROOT, "symx", "main"))
    try:
        target = shadow_build()
    except Broken as e:
        # f32 or f64 is used in a way the symbolic scalar does not have
        p.undecided.append("the primitive impls could not be instantiated at the symbolic scalar: " + str(e)[-1500:])
        p.goals += 1
        return p
    env = dict(ENV, SYMX_REAL=os.path.join(real, "debug", "symx"))
    return symx_run(prop, p, os.path.join(target, "debug", "shadow"), env, target, env["SYMX_REAL"])


def symx_go(cmd, env, out):
    """Runs the engine: the process, and its results if it came to an end."""
    try:
        r = subprocess.run(cmd + ["--out", out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=left(1e6))
    except subprocess.TimeoutExpired:
        return None, None
    if not os.path.exists(out):
        return r, None
    with open(out) as f:
        res = json.load(f)
    os.remove(out)
    return r, res


def symx_crash(exe, name, log):
    """Replays natively a harness whose symbolic run did not come to an end."""
    models = [json.loads(m) for m in re.findall(r"^SYMX-CRASH (.*)$", log, re.M)] + [{}]
    for m in models:
        cmd = [exe, "replay", name] + ["%s=%r" % kv for kv in sorted(m.items())]
        v = dict(harness=name, model=m, replay=" ".join(cmd))
        try:
            r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left(20))
        except subprocess.TimeoutExpired:
            if left(20) < 19:
                return None
            return dict(v, label="comes to an end", detail="the native run does not end")
        if r.returncode < 0:
            why = re.findall(r"unsafe precondition.*|.*overflowed its stack.*", log + r.stdout)
            return dict(v, label="no undefined behaviour, no crash",
                        detail="killed by signal %d; %s" % (-r.returncode, why[0] if why else ""))
        if r.returncode == 1:
            return dict(v, label="no undefined behaviour, no crash", detail=r.stdout.strip()[-600:])
    return None


def symx_run(prop, p, exe, env, target, replayer=None):
    t = time.time()
    base = [exe, "run", "--prop", prop, "--tier", TIER, "--seed", str(SEED)]
    r, res = symx_go(base, env, os.path.join(target, "out-%s-%d.json" % (prop, os.getpid())))
    if r is None:
        p.undecided.append("%s: out of time" % p.name)
        p.goals += 1
        return p
    lost = []
    if res is None:
        # the process died (undefined behaviour that the standard library traps, a stack overflow):
        # every harness again in a process of its own
        names = [l.split() for l in subprocess.run([exe, "list"], env=env, stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        names = [l[0] for l in names if prop in l[2].split(",") and (TIER == "thorough" or l[1] == "Quick")]

        def one(k):
            return symx_go(base + ["--name", names[k], "--jobs", "1"], env,
                           os.path.join(target, "out-%s-%d-%d.json" % (prop, os.getpid(), k)))
        res = dict(harnesses=[])
        with ThreadPoolExecutor(8) as ex:
            for n, (r, x) in zip(names, ex.map(one, range(len(names)))):
                if x is None:
                    lost.append((n, "" if r is None else r.stdout))
                else:
                    res["harnesses"] += x["harnesses"]
                    lost += [(m, "") for m in x["lost"]]
    else:
        lost = [(n, "") for n in res["lost"]]
    with ThreadPoolExecutor(8) as ex:
        crashes = list(ex.map(lambda x: symx_crash(replayer or exe, *x), lost))
    for (n, log), v in zip(lost, crashes):
        p.goals += 1
        if v:
            p.violations.append(v)
        else:
            p.undecided.append("%s: no verdict: %s" % (n, log[-300:].strip() or "out of time"))
    for h in res["harnesses"]:
        p.goals += h["goals"]
        p.discharged += h["discharged"]
        p.queries += h["queries"]
        p.paths += h["paths"]
        p.branches += h["branches"]
        p.solver_s += h["solver_s"]
        p.witnesses += h["witnesses"]
        p.cross += h["cross"]
        p.terms += h["terms"]
        p.harnesses.append(dict(name=h["name"], paths=h["paths"], obligations=h["goals"],
                                discharged=h["discharged"], queries=h["queries"], wall_s=h["wall_s"]))
        if h["sample"]:
            p.samples.append(dict(harness=h["name"], witness=h["sample"]))
        for n in h["notes"]:
            p.notes.append("%s: %s" % (h["name"], n))
        for e in h["errors"]:
            p.undecided.append("%s: %s" % (h["name"], e))
        if h["violation"]:
            v = h["violation"]
            args = " ".join("%s=%r" % kv for kv in sorted(v["model"].items()))
            p.violations.append(dict(harness=h["name"], label=v["label"], detail=v["detail"], model=v["model"],
                                     replay="%s replay %s %s" % (replayer or exe, h["name"], args)))
    p.wall_s = time.time() - t
    return p


# Kani reports a failing check by category; these are panics, the others break memory safety or
# the unwinding bound
KANI_GIVEUP = ("unwind", "unsupported_construct", "reachability_check")


def kani_dir():
    """The target directory of the Kani harnesses, emptied when /repo has changed."""
    target = os.path.join(BUILD, "kani")
    stamp, now = os.path.join(target, ".repo-digest"), digest()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        if os.path.isdir(target):
            shutil.rmtree(target)
        os.makedirs(target)
        with open(stamp, "w") as f:
            f.write(now)
    return target


def kani(target, harnesses, extra, timeout):
    """Runs cargo kani; returns its output."""
    cmd = ["cargo", "kani", "--target-dir", target, "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing"]
    for h in harnesses:
        cmd += ["--harness", h]
    e = dict(ENV)
    e.pop("RUSTUP_TOOLCHAIN")
    p = subprocess.Popen(cmd + list(extra), cwd=os.path.join(ROOT, "kani"), env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        return p.communicate(timeout=left(timeout))[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        return p.communicate()[0] + "\ncheck.py: out of time"


def kani_native(name, must_panic, vals):
    """Runs the harness on concrete values against the real code; a text if it fails there."""
    crate = os.path.join(ROOT, "kani")
    target = cargo_build("kani-native", crate)
    args = [name] + vals

    def judge(r):
        out = r.stdout[-1500:]
        if r.returncode == 3 and "ASSUME" in r.stdout:
            return None
        if must_panic:
            return out if "SENTINEL\n" in r.stdout else None
        return out if r.returncode != 0 else None

    def go(cmd, env, timeout):
        try:
            return subprocess.run(cmd + args, cwd=crate, env=env, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, timeout=left(timeout))
        except subprocess.TimeoutExpired:
            return None

    exe = os.path.join(target, "debug", "replay")
    r = go([exe], ENV, 20)
    if r is None:
        return dict(detail="does not end", replay=" ".join([exe] + args))
    if judge(r):
        return dict(detail=judge(r), replay=" ".join([exe] + args))
    if r.returncode == 3:
        return None
    # undefined behaviour without a visible effect: the same run under Miri
    build = os.path.join(BUILD, "miri")
    env = dict(ENV, XDG_CACHE_HOME=os.path.join(BUILD, "miri-cache"), CARGO_TARGET_DIR=build,
               MIRIFLAGS="-Zmiri-disable-stacked-borrows")
    env.pop("RUSTUP_TOOLCHAIN")
    cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--locked", "--bin", "replay", "--"]
    stamp = os.path.join(build, ".repo-digest")
    if os.path.isdir(build) and (not os.path.exists(stamp) or open(stamp).read() != digest()):
        shutil.rmtree(build)
    os.makedirs(build, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(digest())
    r = go(cmd, env, 200)
    if r is not None and ("Undefined Behavior" in r.stdout or "memory leaked" in r.stdout) :
        return dict(detail=r.stdout[-1500:], replay="cd %s && XDG_CACHE_HOME=%s CARGO_TARGET_DIR=%s MIRIFLAGS=%s %s" % (
            crate, env["XDG_CACHE_HOME"], build, env["MIRIFLAGS"], " ".join(cmd + args)))
    return None


def kani_part(prop):
    p = Part("kani")
    t = time.time()
    limit = 600 if TIER == "quick" else 3000
    target = kani_dir()
    crate = os.path.join(ROOT, "kani")
    native = cargo_build("kani-native", crate)
    names = subprocess.run([os.path.join(native, "debug", "replay"), "list"], stdout=subprocess.PIPE,
                           text=True).stdout.split()
    low = prop.lower()
    names = [n for n in names if n.startswith(low + "q_") or (TIER == "thorough" and n.startswith(low + "t_"))]
    out = os.path.join(target, "out-%s-%d.json" % (prop, os.getpid()))
    sel = [low + "q_"] + ([low + "t_"] if TIER == "thorough" else [])
    log = kani(target, sel, ["-j", "8", "--harness-timeout", "200s" if TIER == "quick" else "900s",
                             "--export-json", out], limit)
    if "error: could not compile" in log or "error[E" in log:
        raise Broken("building the Kani harnesses failed:\n" + log[-3000:])
    if not os.path.exists(out):
        p.undecided += ["kani: no result: " + log[-400:]]
        p.goals += len(names)
        p.wall_s = time.time() - t
        return p
    with open(out) as f:
        res = json.load(f)
    os.remove(out)
    stats = {c["harness_id"]: c["cbmc_stats"] for c in res.get("cbmc", []) if c.get("cbmc_stats")}
    results = {r["harness_id"].split("::")[-1]: r for r in res["verification_results"]["results"]}
    bad = []
    for n in names:
        r = results.get(n)
        mp = "_mp_" in n
        checks = r["checks"] if r else []
        if not checks:
            p.goals += 1
            p.undecided.append("%s: no verdict (out of time or memory)" % n)
            continue
        live = [c for c in checks if c["status"] not in ("Unreachable",)]
        fail = [c for c in live if c["status"] == "Failure"]
        done = [c for c in live if c["status"] == "Success"]
        giveup = [c for c in fail if c["category"] in KANI_GIVEUP]
        sent = [c for c in fail if "SENTINEL" in c["description"]]
        # category "assertion" covers panics; what Kani inserts itself are the safety categories
        unsafe = [c for c in fail if c["category"] not in ("assertion",) + KANI_GIVEUP
                  and "out of bounds: the l" not in c["description"] and "attempt to" not in c["description"]]
        s = stats.get(r["harness_id"], {})
        p.goals += len(done) + len(fail)
        p.discharged += len(done)
        p.queries += s.get("vccs_remaining", 0)
        p.solver_s += s.get("runtime_decision_procedure_s", 0.0)
        p.terms += s.get("size_program_expression", 0)
        p.paths += 1
        own = [c for c in checks if "kharness" in c.get("function", "") or re.match(r"(own|access|int|float|random|base)::", c.get("function", ""))]
        if mp:
            ok = not giveup and not sent and not unsafe and fail
            if ok:
                p.discharged += len(fail)
            elif not fail:
                p.undecided.append("%s: nothing panics and nothing returns: vacuous" % n)
        else:
            ok = not fail and len(done) + len([c for c in checks if c["status"] == "Unreachable"]) == len(checks)
            if ok and own and all(c["status"] == "Unreachable" for c in own):
                p.undecided.append("%s: no assertion can be reached: vacuous" % n)
        if not ok and fail:
            bad.append((n, mp, fail, giveup))
        elif not ok and not mp:
            p.undecided.append("%s: a check without a verdict" % n)
        p.harnesses.append(dict(name=n, paths=1, obligations=len(done) + len(fail), discharged=len(done) + (len(fail) if mp and ok else 0),
                                queries=s.get("vccs_remaining", 0), wall_s=r["duration_ms"] / 1000.0))
    # one native run of each harness, on values derived from the seed
    for n in names:
        h = hashlib.sha256(("%s %d" % (n, SEED)).encode()).hexdigest()
        r = subprocess.run([os.path.join(native, "debug", "replay"), n] + ["%02x" % (int(h[2 * i], 16) % 4) for i in range(30)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        if "PASS" in r.stdout or ("_mp_" in n and r.returncode == 101 and "SENTINEL" not in r.stdout):
            p.witnesses += 1
    # counterexamples: values from Kani, then the real code
    found = 0
    for n, mp, fail, giveup in bad:
        what = "; ".join(sorted(set(c["description"] for c in fail)))[:300]
        if found >= (1 if TIER == "quick" else 3) or time.time() - t > limit or left(1000) < 60:
            p.notes.append("%s: fails (%s), not replayed" % (n, what))
            continue
        log = kani(target, [n], ["-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "200s"], 240)
        tests = re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", log, re.S)
        hit = None
        for body in tests[:8]:
            body = "\n".join(l for l in body.splitlines() if not l.strip().startswith("//"))
            vals = ["".join("%02x" % int(b) for b in re.findall(r"\d+", v)) for v in re.findall(r"vec!\[([^\]]*)\]", body)]
            r = kani_native(n, mp, vals)
            if r:
                hit = (vals, r)
                break
        if hit:
            found += 1
            label = "returned instead of panicking" if mp else fail[0]["description"].strip('"')
            p.violations.append(dict(harness=n, label=label, detail="Kani: %s\n  real code: %s" % (what, hit[1]["detail"].strip()[-700:]),
                                     model={"value %d" % i: v for i, v in enumerate(hit[0])}, replay=hit[1]["replay"]))
        else:
            p.undecided.append("%s: Kani reports %s, which did not show on the real code (%d counterexamples tried)" % (n, what, len(tests)))
    p.wall_s = time.time() - t
    return p


PARTS = {
    "C01": [kani_part],
    "C04": [kani_part],
    "C05": [symx_part, shadow_part, kani_part],
    "C07": [symx_part, kani_part],
    "C09": [symx_part, shadow_part, kani_part],
    "C17": [symx_part, shadow_part],
    "C29": [symx_part, kani_part],
}


def setup_kani():
    cargo_build("kani-native", os.path.join(ROOT, "kani"))
    kani(kani_dir(), ["c09q_norm_u8"], [], 600)


def setup_shadow():
    try:
        shadow_build()
    except Broken as e:
        print(e)


SETUP = [setup_kani, setup_shadow]


def parts_for(prop):
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    return PARTS.get(prop, [symx_part])


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def properties():
    out = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        if l.strip():
            d = json.loads(l)
            out[d["id"]] = d
    return out


def main(prop):
    meta = properties()[prop]
    known = known_findings(prop)
    parts, new, old, skipped = [], [], [], []
    for f in parts_for(prop):
        if new and TIER == "quick":
            skipped.append("%s not run: there is a violation already" % f.__name__)
            continue
        p = f(prop)
        parts.append(p)
        for v in p.violations:
            k = [k for k in known if k[1] == v["harness"] and k[2] == v["label"]]
            (old if k else new).append((p, v, k))
    for _, v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    files = []
    for i, (p, v, _) in enumerate(new):
        path = os.path.join(ROOT, "replays", "%s-%d.json" % (prop, i + 1))
        with open(path, "w") as f:
            json.dump(dict(property=prop, engine=p.name, **v), f, indent=1)
            f.write("\n")
        files.append(path)
        print("%s: %s: %s\n  inputs %s\n  %s" % (p.name, v["harness"], v["label"],
                                                 json.dumps(v["model"]), v["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    und = [u for p in parts for u in p.undecided]
    for u in und[:40]:
        print("UNDECIDED property=%s %s" % (prop, u))
    goals, done = sum(p.goals for p in parts), sum(p.discharged for p in parts)
    cov = dict(
        states=sum(p.paths for p in parts), transitions=sum(p.terms for p in parts),
        traces_validated_against_impl=sum(p.witnesses for p in parts),
        obligations=goals, discharged=done, undecided=len(und),
        branches=sum(p.branches for p in parts), queries=sum(p.queries for p in parts), solver_s=round(sum(p.solver_s for p in parts), 3),
        cross_checked=sum(p.cross for p in parts),
        units="states = symbolic paths explored to the end; transitions = symbolic operations executed on them; "
              "traces_validated_against_impl = path witnesses rerun natively with the same outcome",
        bounds=BOUNDS.get(prop, "") or DEFAULT_BOUNDS,
        functions=[m["where"] for m in meta["anchors"]["mechanism"]], files=meta["anchors"]["files"],
        harnesses=[dict(engine=p.name, **h) for p in parts for h in p.harnesses],
        samples=[s for p in parts for s in p.samples][:12],
        engines=[dict(name=p.name, harnesses=len(p.harnesses), wall_s=round(p.wall_s, 2)) for p in parts],
        source_sha256=digest(), notes=(skipped + [n for p in parts for n in p.notes])[:20], undecided_list=und[:40])
    ev = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
              assumptions=assumptions(prop), wall_s=round(time.time() - T0, 2),
              violations=len(new))
    cov["violation_list"] = [dict(harness=v["harness"], label=v["label"], replay=f)
                             for (_, v, _), f in zip(new, files)]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d/%d obligations discharged over %d paths by %d queries, %d undecided, %d known, %.1f s" % (
        prop, TIER, done, goals, cov["states"], cov["queries"], len(und), len(old), time.time() - T0))
    return 1 if new else 0


DEFAULT_BOUNDS = ("every value of the symbolic scalars (exact real arithmetic for float code); "
                  "the dimensions named in the harness list; paths explored to the end")
BOUNDS = {
    'C01': ('Kani: dimensions 1 to 6 and 9 (vectors), shapes 1x1 to 3x3 and long thin ones (matrices); element types with a drop flag, larger and more aligned than it, plain u16 and of size zero; every source length from 0 past the dimension; every number of elements taken before an owning iterator is dropped; loops unrolled past the dimension, unwinding assertions on. Closures that panic are outside'),
    'C02': ('every real value of the symbolic scalars; dimensions 1 to 13, 15 to 17, 24, 32, 33, 64, 65; writes with a symbolic choice of index'),
    'C03': ('every real value of the symbolic scalars; all shapes up to 5x5, long thin ones to 1x65, and larger ones to 16x16 (transposition 32x32)'),
    'C04': ('Kani: every usize index (pair), every slice length and iterator length up to past the dimension, at the dimensions in the harness list; reaching the wrong element is shown by distinct element values'),
    'C05': ('every real value of the symbolic scalars; dimensions 1 to 12, 15 to 17, 33, 64, 65; exact mode (all operation results bit for bit) 1 to 10, 12, 16, 17, 33; elements of one, two and four scalars; integers by Kani for i8, u8, i16, u16, i32 and every signed and unsigned primitive on the left'),
    'C06': ('every real value of the symbolic scalars; all shapes up to 5x5 and long thin ones to 65, squares to 9x9 and 16x16; exact mode up to 6x6, long thin ones to 17'),
    'C07': ('symbolic comparisons of ordered scalars to dimension 6 and shapes 2x2, 1x5, with one free component at every position to dimension 33 and shape 6x6; Kani: every u8/i8 (wrapping) value pair, booleans, every f32 bit pattern, at the dimensions in the harness list'),
    'C08': ('every real value of the symbolic scalars; dimensions 1 to 9, 12, 16, 17, 33 and all shapes to 4x4, 5x5, 8x8 and long thin ones; every float function as an uninterpreted function; exact mode for all but clamp; clamp for lo <= hi'),
    'C09': ('every real value of the symbolic scalars; min/max/L-infinity at dimensions 1 to 5 with every order of the components, at 6 to 9 (16 and 17 in the thorough tier) and shapes to 3x4 with the extreme component at every position; iterators of 0 to 3 items'),
    'C10': ('every real value of the symbolic scalars; closures as uninterpreted non-commutative functions; source lengths up to several groups, inner iterators of every length pattern within the harness bound; sources with arbitrary admissible size hints'),
    'C11': ('every real value of the symbolic scalars; dot to dimension 17, 32, 33, 64, 65, outer all shapes to 5x5, 9x9 and long thin ones to 33, quaternion elements to 4x4'),
    'C12': ('every real value of the symbolic scalars; all L, M, N from 1 to 4 and some to 8x8x8 and 17x1x17; ring laws up to 4x4; quaternion elements to 3x3x3'),
    'C13': ('every real value of the symbolic scalars; sizes 1 to 7 (Leibniz), 1 to 5 (multiplicativity), 1 to 6 (row laws); no division is executed, which carries the result to wrapping integers'),
    'C14': ('every real value of the symbolic scalars; cofactors 1 to 6, adjugate 1 to 6, inverse 1 to 6 with det != 0, inverse algebra 1 to 3'),
    'C15': ('every real value of the symbolic scalars; non-zero divisors'),
    'C16': ('every real value of the symbolic scalars; non-zero divisors'),
    'C17': ('every real value of the symbolic scalars; non-zero divisors; the f32 and f64 impls by instantiating the crate with f32/f64 naming the symbolic scalar'),
    'C18': ('every real value of the symbolic scalars; '),
    'C19': ("every real value of the symbolic scalars; scalar functions uninterpreted on both sides (the crate's Complex and num_complex); integer exponents -14 to 14 and some to 65537 and 2^31 - 1 in size (above 12 for every z where both computations are the same term, otherwise at four points)"),
    'C20': ('every real value of the symbolic scalars; dimensions 1 to 9 and 16 (shift, scale), 1 to 6, 8 and 9 (linear; inverses to 6, 7 in the thorough tier), non-zero scale and determinant, unit rotations'),
    'C21': ('every real value of the symbolic scalars; dimensions 1 to 6 for Shift and Linear (the inverse of Linear of Shift to 3), to 16 for Scale and Shift, 2 and 3 for rotations'),
    'C22': ('every real value of the symbolic scalars; away from poles; dimensions 1 to 6 and 8; quaternion points with complex coefficients'),
    'C23': ('every real value of the symbolic scalars; invertible maps; positive scale for unit length; dimensions 1 to 6 and 8 (normals of Linear and its chains to 6)'),
    'C24': ('every real value of the symbolic scalars; angles through cos/sin pairs on the unit circle, unit axes, unit quaternions'),
    'C25': ('every real value of the symbolic scalars; unit directions (all case boundaries are paths), up not parallel to dir'),
    'C26': ('every real value of the symbolic scalars; away from poles; commutative coefficients for inv'),
    'C27': ('every real value of the symbolic scalars; dimensions 1 to 9, 16, 17 and 32, non-zero input'),
    'C28': ('every real value of the symbolic scalars; every component free: dimensions 1 to 6 and shapes to 2x3, 1x5 (thorough to 3x3); one component of each position free, the rest close: dimensions to 17, shapes to 5x5 and 1x9; every epsilon'),
    'C29': ('every sequence of draws (arbitrary reals, or in the stated range) up to 3 attempts of each rejection loop, or 1000 attempts at zero and then two arbitrary ones; dimensions 1 to 6 (determinants up to 5, in one attempt above 3); primitive normals: every random word, f32 and f64, with ln, sqrt, cos over-approximated'),
    'C30': ('component values opaque; every position at which the sink fails (up to the bound in the harness); dimensions 1 to 9 and 16, shapes to 4x4'),
}
TRUST = "rustc, the engine in symx/core and the SMT solvers are trusted; generic code behaves at every scalar type as at the symbolic one (parametricity)"
KTRUST = "Kani, CBMC and their models of the standard library are trusted; arithmetic overflow wraps or panics as in the dev profile"
REALS = "float scalars are exact reals in the reals mode: rounding, overflow and NaN are outside the claim; in the exact mode results are equal bit for bit up to signed zeros and NaN payloads"
FUNS = "elementary functions are uninterpreted, with the identities listed in DESIGN.md"


def assumptions(prop):
    parts = parts_for(prop)
    out = []
    if symx_part in parts:
        out += [TRUST, REALS, FUNS]
    if kani_part in parts:
        out.append(KTRUST)
    if shadow_part in parts:
        out.append("the impls for f32 and f64 use no other item of the primitive types than the symbolic scalar has (otherwise the build fails and the obligation is reported undecided)")
    return out


if __name__ == "__main__":
    try:
        if sys.argv[1:] == ["--setup"]:
            for f in SETUP:
                f()
            cargo_build("symx", os.path.join(ROOT, "symx", "main"))
            sys.exit(0)
        sys.exit(main(sys.argv[1]))
    except Broken as e:
        print("ERROR: %s" % e)
        sys.exit(2)
