"""Panic paths in the optimised LLVM IR of every public operation.

The crate and the entry points of harness/roots.rs are compiled at opt-level 3 with every function of
the crate instantiated in the entry points' module, so that one module holds the complete compiled
operation.  An operation has a panic path if a call chain through the module reaches a panic entry
point of core/std.  Nothing is executed."""
import os, re, subprocess

PANIC = re.compile(r"(9panicking|16slice_index_fail|slice_\w*index\w*_fail|13unwrap_failed|13expect_failed|17len_mismatch_fail|rust_panic|begin_panic|17capacity_overflow|18handle_alloc_error)")
ALLOC = re.compile(r"(__rust_alloc|__rust_realloc|__rust_alloc_zeroed|17exchange_malloc)|^(malloc|calloc|realloc)$")
NAME = re.compile(r'@("[^"]+"|[\w.$]+)')
# provided methods of std's traits, not operations of the crate
FOREIGN = re.compile(r"::(iowrite_all|iowrite_all_ok|iovec|iovec_n|iobyref|bh_hash_\w+)$")

VARIANTS = [
    ("1.99.1", []),
    ("1.99.1", ["-Cllvm-args=-inline-threshold=4000"]),
    ("nightly", []),
]
CONFIGS = {
    "x86_64-opt-std": (None, ["--cfg", 'feature="std"']),
    "x86_64-opt-nostd": (None, []),
    "x86_64-opt-std+avx2": (None, ["--cfg", 'feature="std"', "-Ctarget-feature=+avx2"]),
    "x86_64-opt-nostd+avx2": (None, ["-Ctarget-feature=+avx2"]),
    "x86_64-opt-nostd+sse4.1": (None, ["-Ctarget-feature=+sse4.1"]),
    "aarch64-opt-std": ("aarch64-unknown-linux-gnu", ["--cfg", 'feature="std"']),
    "i686-opt-std": ("i686-unknown-linux-gnu", ["--cfg", 'feature="std"']),
    "wasm32-opt-simd128": ("wasm32-unknown-unknown", ["-Ctarget-feature=+simd128"]),
    "wasm32-opt": ("wasm32-unknown-unknown", []),
}


def root_name(sym):
    m = re.match(r"_ZN5roots(\d.*?)17h[0-9a-f]{16}E", sym)
    if not m:
        return None
    parts, s = [], m.group(1)
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            return None
        n = int(k.group(1))
        parts.append(s[len(k.group(1)):len(k.group(1)) + n])
        s = s[len(k.group(1)) + n:]
    return "::".join(parts)


def pretty(sym):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", sym)
    if not m:
        return sym
    s, out = m.group(1), []
    while s:
        k = re.match(r"(\d+)", s)
        if not k:
            break
        n = int(k.group(1))
        out.append(s[len(k.group(1)):len(k.group(1)) + n])
        s = s[len(k.group(1)) + n:]
    return "::".join(out).replace("..", "::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ")


def compile_ir(tool, target, flags, extra, C, d):
    d.mkdir(parents=True, exist_ok=True)
    env = dict(C.ENV, RUSTC_BOOTSTRAP="1")
    base = ["rustc", "+" + tool, "--edition", "2021", "-Copt-level=3", "-Ccodegen-units=1", "--cap-lints", "allow", "--crate-type", "rlib",
            "-Csymbol-mangling-version=legacy", "-Zunstable-options", *flags, *extra] + (["--target", target] if target else [])
    a = subprocess.run(base + ["-Zcross-crate-inline-threshold=always", "-Zalways-encode-mir", "--crate-name", "highway", "-o", str(d / "libhighway.rlib"),
                               str(C.REPO / "src/lib.rs")], env=env, capture_output=True, text=True)
    if a.returncode:
        return None, a.stderr[-1500:]
    b = subprocess.run(base + ["-Zcross-crate-inline-threshold=never", "--crate-name", "roots", "--extern", f"highway={d}/libhighway.rlib",
                               "--emit=llvm-ir", "-o", str(d / "roots.ll"), str(C.V / "harness/roots.rs")], env=env, capture_output=True, text=True)
    if b.returncode:
        return None, b.stderr[-1500:]
    return (d / "roots.ll").read_text(), None


def graph(text):
    """function -> symbols it mentions (calls, invokes, function pointers, vtables via globals)"""
    fn, g, glob = None, {}, {}
    for l in text.splitlines():
        if l.startswith("define "):
            m = NAME.search(l)
            fn = m.group(1).strip('"')
            g[fn] = set()
            continue
        if l.startswith("}"):
            fn = None
            continue
        if l.startswith("@"):
            m = NAME.match(l)
            glob[m.group(1).strip('"')] = {x.strip('"') for x in NAME.findall(l[m.end():])}
            continue
        if fn:
            g[fn] |= {x.strip('"') for x in NAME.findall(l)}
    return g, glob


def analyse(text):
    g, glob = graph(text)
    ops, panics, allocs = [], {}, {}
    for f in g:
        r = root_name(f)
        if not r:
            continue
        ops.append(r)
        seen, q = {f: None}, [f]
        while q:
            x = q.pop()
            for y in sorted(g.get(x, set()) | glob.get(x, set())):
                if y in seen:
                    continue
                seen[y] = x
                if y in g or y in glob:
                    q.append(y)
                else:
                    for rx, dst in ((PANIC, panics), (ALLOC, allocs)):
                        if rx.search(y) and r not in dst and "__rust_no_alloc_shim" not in y:
                            c, z = [], y
                            while z is not None:
                                c.append(pretty(z))
                                z = seen[z]
                            dst[r] = " <- ".join(c)
    return sorted(ops), panics, allocs


def run(rep, work, C):
    """operations that keep a panic branch under every optimising variant are open obligations"""
    res = {}
    for name, (target, flags) in CONFIGS.items():
        bad, n, used = None, 0, []
        for k, (tool, extra) in enumerate(VARIANTS):
            if tool == "nightly" and target:
                continue
            text, err = compile_ir(tool, target, flags, extra, C, work / f"ir-{name}-{k}")
            if text is None:
                rep.notes.append(f"optimised IR of {name} with {tool}: {err.splitlines()[0] if err else '?'}")
                continue
            ops, p, _ = analyse(text)
            used.append(" ".join([tool, *extra]))
            n = max(n, len(ops))
            p = {o: c for o, c in p.items() if not FOREIGN.search("::" + o)}
            bad = p if bad is None else {o: c for o, c in bad.items() if o in p}
            if not bad:
                break
        if bad is None:
            continue
        res[name] = dict(operations=n, with_panic_path=sorted(bad), compilers=used)
        rep.extra["obligations"] = rep.extra.get("obligations", 0) + n
        rep.extra["discharged"] = rep.extra.get("discharged", 0) + n - len(bad)
        for o, c in bad.items():
            # a branch the optimiser kept is no proof that it can be taken: behaviour-preserving edits
            # (an index written as buf[i..i+n], say) leave some.  Feasible panics are found on the MIR.
            k = f"optimised code of {o} keeps a panic branch"
            rep.undecided[k] = rep.undecided.get(k, 0) + 1
            rep.why[f"[{name}] {k}: {c}"] = 1
    rep.extra["optimised_ir"] = res
