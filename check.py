#!/usr/bin/env python3
"""Run one property check: build /repo's current sources for a set of configurations, hand the
compiler's MIR to the abstract interpreter (engine/) and collect its verdicts."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

V = Path(__file__).resolve().parent
REPO = Path(os.environ.get("HW_REPO", "/repo"))
BUILD = V / "build"
ENGINE = V / "engine"
BIN = ENGINE / "target/release/hwcheck"
T0 = time.time()
NCPU = int(os.environ.get("HW_JOBS", os.cpu_count() or 8))

ENV = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "RUSTC", "RUSTDOC", "RUSTUP_TOOLCHAIN", "CARGO_BUILD", "CARGO_TARGET", "CARGO_ENCODED", "HW_"))}
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV["CARGO_NET_OFFLINE"] = "true"


def out(*cmd):
    return subprocess.run(cmd, env=ENV, capture_output=True, text=True, check=True).stdout.strip()


SR = None


def sysroot():
    global SR
    if SR is None:
        SR = out("rustc", "+nightly", "--print", "sysroot")
        ENV["LD_LIBRARY_PATH"] = SR + "/lib"
    return SR


class Lock:
    def __init__(self, name):
        BUILD.mkdir(exist_ok=True)
        self.f = open(BUILD / (name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ------------------------------------------------------------------ configurations
DEV = ["-Cdebug-assertions=on", "-Coverflow-checks=on"]
REL = ["-Cdebug-assertions=off", "-Coverflow-checks=off"]
STD = ["--cfg", 'feature="std"']


def x86(prof, std, tf=None, cpu=None):
    f = list(prof) + (STD if std else [])
    if tf:
        f.append("-Ctarget-feature=" + tf)
    if cpu:
        f.append("-Ctarget-cpu=" + cpu)
    return dict(target=None, flags=f)


def cross(target, prof, tf=None, std=False):
    return dict(target=target, flags=list(prof) + (STD if std else []) + (["-Ctarget-feature=" + tf] if tf else []), std=std)


CFG = {
    "x86_64-dev-std": x86(DEV, True),
    "x86_64-rel-std": x86(REL, True),
    "x86_64-dev-nostd": x86(DEV, False),
    "x86_64-rel-nostd": x86(REL, False),
    "x86_64-dev-std+sse4.1": x86(DEV, True, "+sse4.1"),
    "x86_64-dev-nostd+sse4.1": x86(DEV, False, "+sse4.1"),
    "x86_64-rel-nostd+sse4.1": x86(REL, False, "+sse4.1"),
    "x86_64-dev-std+avx": x86(DEV, True, "+avx"),
    "x86_64-dev-std+avx2": x86(DEV, True, "+avx2"),
    "x86_64-dev-nostd+avx2": x86(DEV, False, "+avx2"),
    "x86_64-rel-std+avx2": x86(REL, True, "+avx2"),
    "x86_64-dev-std-v3": x86(DEV, True, None, "x86-64-v3"),
    "x86_64-dev-nostd-v3": x86(DEV, False, None, "x86-64-v3"),
    "x86_64-dev-std-v4": x86(DEV, True, None, "x86-64-v4"),
    "aarch64-dev": cross("aarch64-unknown-linux-gnu", DEV),
    "aarch64-rel": cross("aarch64-unknown-linux-gnu", REL),
    "wasm32-simd128-dev": cross("wasm32-unknown-unknown", DEV, "+simd128"),
    "wasm32-simd128-rel": cross("wasm32-unknown-unknown", REL, "+simd128"),
    "wasm32-dev": cross("wasm32-unknown-unknown", DEV),
    "powerpc64-dev": cross("powerpc64-unknown-linux-gnu", DEV),
    "powerpc64-rel": cross("powerpc64-unknown-linux-gnu", REL),
    "powerpc-dev": cross("powerpc-unknown-linux-gnu", DEV),
    "powerpc-rel": cross("powerpc-unknown-linux-gnu", REL),
    "i686-dev": cross("i686-unknown-linux-gnu", DEV),
    "i686-rel": cross("i686-unknown-linux-gnu", REL),
}
BASE = ["-Zalways-encode-mir", "-Zmir-opt-level=0", "--cap-lints", "allow", "--crate-type", "rlib", "--emit=metadata"]


def build_engine():
    with Lock("engine"):
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=ENGINE, env=ENV, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            sys.exit(2)


def target_flags(t):
    return ["--target", t] + (["-Ctarget-feature=+simd128"] if t.startswith("wasm32") else [])


def core_dir(t):
    return BUILD / "core" / t


def build_core(t):
    """metadata of libcore (with MIR) for a target whose standard library is not installed"""
    d = core_dir(t)
    with Lock("core-" + t):
        stamp = out("rustc", "+nightly", "-vV") + " v2"
        if (d / "stamp").exists() and (d / "stamp").read_text() == stamp:
            return
        if d.exists():
            shutil.rmtree(d)
        d.mkdir(parents=True)
        lib = sysroot() + "/lib/rustlib/src/rust/library"
        f = BASE + target_flags(t) + ["-L", str(d)]
        run = lambda *c: subprocess.run(["rustc", "+nightly", *c], env=ENV, check=True, capture_output=True, text=True)
        run("--edition", "2024", "--crate-name", "core", "-Zforce-unstable-if-unmarked", "-Cmetadata=x", *f,
            "-o", str(d / "libcore-x.rmeta"), lib + "/core/src/lib.rs")
        (d / "cb.rs").write_text("#![feature(compiler_builtins)] #![compiler_builtins] #![no_std]\n")
        run("--edition", "2024", "--crate-name", "compiler_builtins", "-Cmetadata=x", *f,
            "--extern", f"core={d}/libcore-x.rmeta", "-o", str(d / "libcompiler_builtins-x.rmeta"), str(d / "cb.rs"))
        (d / "stamp").write_text(stamp)


def cfg_flags(name):
    c = CFG[name]
    f = BASE + c["flags"]
    if c["target"]:
        f += ["--target", c["target"], "-L", str(core_dir(c["target"]))]
    return f


def build_repo(name, work):
    """type-check /repo's library for one configuration; the metadata carries all MIR"""
    d = work / name
    d.mkdir(parents=True)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-name", "highway", *cfg_flags(name),
                        "-o", str(d / "libhighway.rmeta"), str(REPO / "src/lib.rs")], env=ENV, capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr[-3000:]


STOP = []
RUNNING = set()


def job(prop, name, shard, mode, work, tier, deadline, budget, defer=None):
    left = deadline - time.time()
    if left < 5:
        return dict(skipped=True)
    if STOP:
        return dict(cancelled=True)
    d = work / name
    o = d / f"out-{mode}-{shard[0]}-{shard[1]}-{'b' if defer else 'a'}.json"
    env = dict(ENV, HW_PROP=prop, HW_SHARD=f"{shard[0]}/{shard[1]}", HW_TIER=tier, HW_CFG=name, HW_OUT=str(o),
               HW_BUDGET=str(min(budget, left - 3)))
    if mode == "core":
        env["HW_MODE"] = "core"
    else:
        # constant lengths first; whatever involves symbolic ones comes in a second round
        env["HW_PASS"] = "1" if defer else "0"
        if defer:
            env["HW_DEFER"] = ",".join(map(str, defer))
    if mode != "core" and name != PLAN[prop][0][0]:
        env["HW_LITE"] = "1"
        if tier == "quick" and prop in STRIDE:
            env["HW_STRIDE"] = str(STRIDE[prop])
    cmd = [str(BIN), "--sysroot", sysroot(), "--edition", "2021", "--crate-name", "roots", *cfg_flags(name),
           "--extern", f"highway={d}/libhighway.rmeta", "-o", "/dev/null", str(V / "harness/roots.rs")]
    t = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    RUNNING.add(p)
    if STOP:
        p.kill()
    try:
        so, se = p.communicate(timeout=left + 20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(error="time limit")
    finally:
        RUNNING.discard(p)
    if STOP and not o.exists():
        return dict(cancelled=True)
    if not o.exists():
        return dict(error=(se or so)[-1500:] or f"exit {p.returncode}")
    j = json.loads(o.read_text())
    o.unlink()
    j["cpu"] = time.time() - t
    j["second"] = bool(defer)
    return j


# ------------------------------------------------------------------ what each property needs
# (configuration, shards in the quick tier, shards in the thorough tier); the first is the primary one
X = "x86_64-dev-std"
PLAN = {
    "C01": [(X, 8, 16), ("x86_64-rel-std", 8, 16), ("x86_64-dev-nostd", 4, 16), ("i686-dev", 4, 8), ("powerpc64-dev", 4, 8)],
    "C02": [(X, 24, 48), ("x86_64-rel-std", 24, 48), ("x86_64-dev-nostd", 16, 48), ("x86_64-dev-std+sse4.1", 16, 32),
            ("x86_64-dev-nostd+sse4.1", 16, 32), ("x86_64-dev-std+avx2", 16, 32), ("x86_64-dev-nostd+avx2", 16, 32)],
    "C03": [("aarch64-dev", 24, 48), ("aarch64-rel", 24, 48)],
    "C04": [("wasm32-simd128-dev", 24, 48), ("wasm32-simd128-rel", 24, 48)],
    "C05": [(X, 48, 96), ("aarch64-dev", 24, 48), ("wasm32-simd128-dev", 24, 48)],
    "C06": [(X, 24, 48), ("aarch64-dev", 16, 48), ("wasm32-simd128-dev", 16, 48)],
    "C07": [(X, 8, 16), ("x86_64-rel-std", 8, 8), ("x86_64-dev-nostd", 8, 8), ("aarch64-dev", 8, 8), ("wasm32-simd128-dev", 8, 8)],
    "C08": [(X, 48, 96), ("x86_64-rel-std", 16, 48), ("x86_64-dev-nostd", 16, 48), ("aarch64-dev", 16, 48), ("wasm32-simd128-dev", 16, 48), ("i686-dev", 8, 32)],
    "C09": [(X, 48, 96), ("x86_64-rel-std", 16, 48), ("aarch64-dev", 16, 48), ("wasm32-simd128-dev", 16, 48), ("i686-dev", 8, 32), ("powerpc64-dev", 8, 32)],
    "C10": [(X, 4, 8), ("x86_64-rel-std", 4, 8), ("x86_64-dev-nostd", 4, 8), ("x86_64-dev-std+sse4.1", 4, 8),
            ("x86_64-dev-nostd+sse4.1", 4, 8), ("x86_64-dev-std+avx", 4, 8), ("x86_64-dev-std+avx2", 4, 8), ("x86_64-dev-nostd+avx2", 4, 8),
            ("x86_64-dev-std-v3", 4, 8), ("x86_64-dev-nostd-v3", 4, 8), ("aarch64-dev", 4, 8), ("wasm32-simd128-dev", 4, 8),
            ("wasm32-dev", 4, 8), ("powerpc64-dev", 4, 8), ("i686-dev", 4, 8)],
    "C11": [(X, 24, 48), ("x86_64-rel-std", 16, 32), ("aarch64-dev", 16, 32), ("wasm32-simd128-dev", 16, 32)],
    "C12": [(X, 24, 48), ("x86_64-dev-nostd", 8, 16), ("aarch64-dev", 8, 16), ("wasm32-simd128-dev", 8, 16)],
    "C13": [(X, 24, 48), ("aarch64-dev", 16, 32), ("wasm32-simd128-dev", 16, 32)],
    "C14": [(X, 24, 48), ("x86_64-rel-std", 16, 32), ("aarch64-dev", 16, 32), ("wasm32-simd128-dev", 16, 32)],
    "C15": [(X, 24, 48), ("x86_64-dev-nostd", 8, 16), ("aarch64-dev", 8, 16), ("wasm32-simd128-dev", 8, 16)],
    "C16": [(X, 4, 8), ("x86_64-dev-nostd", 2, 4), ("i686-dev", 2, 4), ("powerpc64-dev", 2, 4), ("aarch64-dev", 2, 4), ("wasm32-dev", 2, 4)],
    "C17": [(X, 4, 16), ("powerpc64-dev", 4, 16), ("powerpc-dev", 4, 16), ("i686-dev", 4, 16), ("x86_64-rel-std", 4, 16), ("powerpc64-rel", 4, 16), ("powerpc-rel", 4, 16), ("i686-rel", 4, 16)],
    "C18": [(X, 32, 96), ("x86_64-dev-nostd", 16, 48), ("aarch64-dev", 16, 48), ("wasm32-simd128-dev", 16, 48)],
}


# quick tier: configurations after the first analyse one unit in so many
CLOSURE = {p: [] for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C18")}
STRIDE = {"C02": 3, "C05": 2, "C06": 2, "C08": 4, "C09": 5, "C11": 2, "C13": 2, "C18": 4}


def known():
    f = V / "known-findings.txt"
    r = {}
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.proved, self.undecided, self.why = {}, {}, {}
        self.viol, self.notes, self.samples = {}, [], []
        self.functions, self.statics = set(), set()
        self.stats, self.cfgs, self.backends = {}, {}, {}
        self.values = {}
        self.errors = []
        self.extra = {}
        self.cancelled = 0
        self.closure = {}

    def add(self, name, j, mode="explore"):
        if mode == "core":
            k = self.closure.setdefault(name, dict(obligations=0, open={}, incomplete=0))
            if "proved" in j:
                k["obligations"] += sum(j["proved"].values())
                k["open"].update(j["values"])
                j["values"] = {}
            if "proved" not in j or j["stats"]["truncated"]:
                k["incomplete"] += 1
        c = self.cfgs.setdefault(name, dict(obligations=0, discharged=0, shards=0, errors=0, skipped=0))
        c["shards"] += 1
        if j.get("cancelled"):
            self.cancelled += 1
            return
        if "error" in j:
            c["errors"] += 1
            self.errors.append(f"{name}: {j['error']}")
            return
        if j.get("skipped"):
            c["skipped"] += 1
            return
        for k, n in j["proved"].items():
            self.proved[k] = self.proved.get(k, 0) + n
            c["discharged"] += n
            c["obligations"] += n
        for k, n in j["undecided"].items():
            self.undecided[k] = self.undecided.get(k, 0) + n
            c["obligations"] += n
        for k, n in j["undecided_why"].items():
            self.why[f"[{name}] {k}"] = n
        for v in j["violations"]:
            c["obligations"] += 1
            self.viol.setdefault(v["key"], dict(v, cfg=name))
        self.samples += j["samples"][:1] if len(self.samples) < 24 else []
        self.functions |= set(j["functions"])
        self.statics |= set(map(str, j["statics"]))
        self.backends[name] = j["backends"]
        for k, n in j["stats"].items():
            if k != "wall":
                self.stats[k] = self.stats.get(k, 0) + n
        self.stats["cpu_seconds"] = round(self.stats.get("cpu_seconds", 0) + j["cpu"], 1)
        self.values.setdefault(name, {}).update(j["values"])

    def bad(self, key, what, site, cfg):
        self.viol.setdefault(key, dict(key=key, what=what, site=site, cfg=cfg))


import props  # noqa: E402  (per-property extra analyses and texts)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = float(os.environ.get("HW_LIMIT", 780 if tier == "quick" else 6 * 3600))
    only = os.environ.get("HW_ONLY")
    sysroot()
    build_engine()
    plan = PLAN[prop]
    if only:
        plan = [p for p in plan if p[0] in only.split(",")]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(build_core, sorted({CFG[n]["target"] for n, *_ in plan if CFG[n]["target"]})))
    BUILD.mkdir(exist_ok=True)
    work = Path(tempfile.mkdtemp(prefix=f"run-{prop}-", dir=BUILD))
    rep = Report(prop, tier)
    deadline = T0 + limit
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            names = [n for n, *_ in plan]
            errs = dict(zip(names, ex.map(lambda n: build_repo(n, work), names)))
            extra = ex.submit(props.extra, prop, rep, work, sys.modules[__name__])
            jobs = []
            for pos, (n, q, t) in enumerate(plan):
                if errs[n]:
                    rep.errors.append(f"{n}: does not compile: {errs[n]}")
                    continue
                k = q if tier == "quick" else t
                for i in range(k):
                    # the primary configuration first, the others interleaved
                    jobs.append(((0 if pos == 0 else 1, i / k), n, (i, k), "explore"))
                if prop in CLOSURE and (tier != "quick" or n in CLOSURE[prop]):
                    k = 48 if tier == "quick" else 96
                    for i in range(k):
                        jobs.append(((2, i / k), n, (i, k), "core"))
            jobs.sort(key=lambda j: j[0])
            budget = 200 if tier == "quick" else 2400
            kn = known()
            futs = {ex.submit(job, prop, n, sh, mode, work, tier, deadline, budget): (n, mode, sh) for _, n, sh, mode in jobs}
            while futs:
                f = next(cf.as_completed(futs))
                n, mode, sh = futs.pop(f)
                r = f.result()
                if r.get("defer") and mode != "core" and not r.get("second"):
                    futs[ex.submit(job, prop, n, sh, mode, work, tier, deadline, budget, r["defer"])] = (n, mode, sh)
                rep.add(n, r, mode)
                if any((prop, k) not in kn for k in rep.viol):
                    STOP.append(1)  # one violation decides; leave the rest
                    for p in list(RUNNING):
                        p.kill()
            extra.result()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(finish(rep, plan, seed))


def finish(rep, plan, seed):
    prop = rep.prop
    props.judge(prop, rep)
    kn = known()
    new = []
    for k, v in sorted(rep.viol.items()):
        if (prop, k) in kn:
            print(f"KNOWN-FINDING: property={prop} {kn[(prop, k)]}")
        else:
            new.append(v)
    ev = V / "evidence"
    ev.mkdir(exist_ok=True)
    obligations = sum(c["obligations"] for c in rep.cfgs.values()) + rep.extra.get("obligations", 0)
    discharged = sum(c["discharged"] for c in rep.cfgs.values()) + rep.extra.get("discharged", 0)
    text = props.TEXT[prop]
    cov = dict(
        explanation=text["explanation"],
        obligations=obligations,
        discharged=discharged,
        checker_cmd=f"python3 check.py {prop}",
        trusted_base=props.TRUSTED,
        rule=text["rule"],
        obligations_by_kind=dict(sorted(rep.proved.items())),
        undecided_by_kind=rep.undecided,
        undecided_reasons=dict(sorted(rep.why.items())[:40]),
        configurations={n: dict(c, flags=" ".join(CFG[n]["flags"]), target=CFG[n]["target"] or "x86_64-unknown-linux-gnu", hashers=rep.backends.get(n)) for n, c in rep.cfgs.items()},
        functions_analysed=sorted(f for f in rep.functions if "highway" in f),
        library_functions_analysed=len([f for f in rep.functions if "highway" not in f]),
        mutable_statics_seen=sorted(rep.statics),
        analysis=rep.stats,
        samples=rep.samples[:24],
        closure={n: dict(c, closed=not c["open"] and not c["incomplete"]) for n, c in rep.closure.items()},
        shards_cancelled_after_a_violation=rep.cancelled,
        notes=rep.notes,
        errors=rep.errors[:10],
        **{k: v for k, v in rep.extra.items() if k not in ("obligations", "discharged")},
    )
    d = dict(property=prop, tier=rep.tier, seed=seed, level=text["level"], coverage=cov, assumptions=props.ASSUME,
             wall_s=round(time.time() - T0, 1), violations=len(new))
    (ev / f"{prop}.json").write_text(json.dumps(d, indent=1))
    rf = ev / f"{prop}.violations.txt"
    if rf.exists():
        rf.unlink()
    print(f"{prop}: {discharged}/{obligations} obligations discharged, {len(rep.undecided)} undecided kinds, "
          f"{sum(c['skipped'] for c in rep.cfgs.values())} shards skipped, {len(rep.errors)} errors, {d['wall_s']} s")
    for e in rep.errors[:3]:
        print("note:", e[:600].replace("\n", " | "))
    for k, n in list(rep.undecided.items())[:5]:
        print(f"undecided: {n} x {k}")
    for k, n in list(sorted(rep.why.items()))[:5]:
        print(f"  why: {n} x {k[:300]}")
    if new:
        t = []
        for v in new:
            t.append(f"property {prop}\nkey {v['key']}\nconfiguration {v['cfg']}\n{v['what']}\nat {v['site']}\n")
        rf.write_text("\n".join(t))
        for v in new[:5]:
            print(f"{v['what'][:700]}\n  at {v['site'][:400]} [{v['cfg']}]")
        print(f"VIOLATION property={prop} replay={rf}")
        return 1
    prim = rep.cfgs.get(plan[0][0])
    if not prim or not prim["discharged"]:
        print(f"no answer: nothing could be analysed in {plan[0][0]}")
        return 2
    return 0


if __name__ == "__main__":
    main()
