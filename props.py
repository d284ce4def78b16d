"""Texts and additional analyses per property."""
import os
import json, subprocess
import ir

TRUSTED = [
    "rustc (nightly) front end and MIR construction; stdarch/core MIR of the nightly stands for the pinned compiler's",
    "the abstract semantics of MIR and of the vector intrinsics in engine/src (interp.rs, intrin.rs)",
    "the value-graph normal forms in engine/src/term.rs and the HighwayHash specification in engine/src/spec.rs (checked against Google's published vectors at start-up)",
]
ASSUME = [
    "an input slice is at most isize::MAX bytes (a Rust guarantee)",
    "unsafe constructors are called on CPUs that have the feature, as their contract demands",
    "configurations analysed are those listed under coverage.configurations",
]
RULE = ("An obligation is one abstract execution path of one operation sequence with symbolic key, data, restored bytes and (where stated) symbolic length; "
        "it is discharged only when the two value graphs compared are identical after normalisation, or the path provably neither panics, faults nor allocates.")


def t(level, s):
    return dict(level=level, rule=RULE, explanation=s)


AI = "Abstract interpretation of the compiler's MIR with global value numbering (no execution, no solver). "
TEXT = {
    "C01": t("proof", AI + "One-shot and streamed hashes of the portable hasher, with symbolic key and bytes, are reduced to a value graph and compared bit for bit with the graph of the HighwayHash definition: every length up to a bound one by one, and every longer length (32*Q+r, symbolic Q) through loop summaries that are inferred and then verified inductively."),
    "C02": t("proof", AI + "SSE4.1, AVX2 and the dispatching hasher against the portable hasher on the same symbolic key and bytes, all widths, in each listed x86_64 configuration; every length as in C01; every outcome of run-time feature detection is a separate path."),
    "C03": t("proof", AI + "NEON hasher (aarch64 MIR, NEON intrinsics interpreted) against the portable hasher; every length as in C01; checkpoints of every pending length exchanged in both directions."),
    "C04": t("proof", AI + "Wasm simd128 hasher (wasm32 MIR) against the portable hasher; every length as in C01; checkpoints of every pending length exchanged in both directions."),
    "C05": t("other", AI + "Sequences of append / write / write_all / Hasher::write / integer writes against the one-shot hash of the concatenation, as identity of value graphs: all two-chunk splits in a dense grid, byte-wise and odd chunks, symbolic chunk lengths 32*Q+r on either side, pseudo-random chunk sequences; every hasher type."),
    "C06": t("other", AI + "checkpoint -> restore (same or another hasher type, one or several hops) at every pending length and at symbolic positions, then symbolic suffixes, against the uninterrupted hasher, as identity of value graphs."),
    "C07": t("proof", AI + "Default values of every hasher type against construction with the zero key: same results for every operation sequence of the C01 grid and every longer length, and across hasher types."),
    "C08": t("other", AI + "Every public operation from fresh, default and restored states (every buffered count, stale buffer bytes symbolic), after data of every length: no path reaches a panic, in dev and release profiles (overflow checks are MIR assertions). Optimised builds: the LLVM IR of each operation, compiled with all of the crate in one module, is searched for call chains to panic entry points; an operation without one is discharged, a branch the optimiser keeps is an open obligation (whether it can be taken is decided on the release MIR)."),
    "C09": t("other", AI + "Every memory access of every public operation is checked against the bounds, initialisation, alignment requirement and provenance of the object it addresses; input slices are objects of their exact length at unconstrained addresses. Results with data and hasher at other symbolic addresses are compared as value graphs."),
    "C10": t("proof", AI + "All feature-detection outcomes of each configuration: the vector code entered must be permitted by the configuration or by a positive detection on that path; the selection and results through new, default, restore, clone and the BuildHasher agree with each other and with portable; explicit constructors return Some exactly on a positive detection."),
    "C11": t("other", AI + "Restoring arbitrary symbolic bytes with every count class (0..31, 32 and more, symbolic): no failing path, all hasher types agree on results and checkpoints, empty appends change nothing, splits and checkpoint hops are transparent."),
    "C12": t("other", AI + "Hasher::finish between writes, io::Write return values, flush, vectored and by-reference writes, integer writes, BuildHasher construction, hash_one: compared with direct use of the hasher as value graphs."),
    "C13": t("other", AI + "checkpoint, finish, clone and Debug through a shared reference inserted at any point leave every byte that later operations read, and every later result, identical; a clone and its original are updated in both orders without influencing each other."),
    "C14": t("other", AI + "Checkpoints as value graphs: equal to the graph determined by key and bytes consumed for every chunking and hasher type; restore-then-checkpoint is the identity; no buffer byte of the checkpoint depends on absorbed input except through the state lanes."),
    "C15": t("other", AI + "Operations of two and three hasher instances interleaved in one abstract memory against the same operations alone; every access to a static that is reached is recorded, and unsynchronised writes to shared statics are violations (thread interleavings are covered by the absence of shared mutable state, not by enumeration)."),
    "C16": t("proof", "Two static analyses. (a) The monomorphic call graph of every portable, key and collection-builder operation is built from MIR per configuration; each function of the crate in it is looked up in the source and must contain no `unsafe`. (b) A cfg-independent closure over the syntax trees of all source files (types, impls, traits, functions and macros the portable hasher and HighwayBuildHasher mention, whatever cfg guards them) must contain no `unsafe` token."),
    "C17": t("other", AI + "The same source compiled for big- and little-endian, 32- and 64-bit targets: results and checkpoints of the portable hasher equal one and the same target-independent value graph on each target."),
    "C18": t("other", "Call graph: no operation's monomorphic call graph, restricted to paths that return, contains an allocation function (std and no_std; without std the alloc crate is not linked). " + AI + "All operations from all state classes run without reaching an allocation."),
}


# ------------------------------------------------------------------ C16
def srcscan(C):
    d = C.V / "srcscan"
    with C.Lock("srcscan"):
        subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=d, env=C.ENV, check=True, capture_output=True, text=True)
    r = subprocess.run([str(d / "target/release/srcscan"), str(C.REPO / "src/lib.rs")], env=C.ENV, check=True, capture_output=True, text=True)
    return json.loads(r.stdout)


DISPATCH = {"HighwayHasher", "HighwayChoices"}


def closure(items):
    """items the portable hasher and the collection builder consist of, under any cfg"""
    types = {i["name"] for i in items if i["kind"] == "type"}
    traits = {i["name"] for i in items if i["kind"] == "trait"}
    macros = {i["name"] for i in items if i["kind"] == "macro"}
    fns = {}
    for n, i in enumerate(items):
        if i["kind"] in ("fn", "const"):
            fns.setdefault(i["name"], []).append(n)
    uses = {}
    for i in items:
        if i["kind"] == "use":
            uses.setdefault(i["module"], set()).update(i["ids"])
    tmeth = {}
    for i in items:
        if i["kind"] == "traitmethod":
            tmeth.setdefault(i["name"], set()).add(i["trait"])
    portable, builder = "PortableHash", "HighwayBuildHasher"
    T, TR, M, sel = {portable, "Key"} & types, set(), set(), {}
    T |= {portable}

    def owners(i):
        return set(i["owner"].split())

    def mention(i, follow):
        """add what item i mentions"""
        ch = False
        for x in i["ids"]:
            if x in traits and x not in TR:
                TR.add(x); ch = True
            if x in macros and x not in M:
                M.add(x); ch = True
            if follow and x in types and x not in T and x not in DISPATCH and x != builder:
                T.add(x); ch = True
            for n in fns.get(x, []):
                f = items[n]
                seg = f["module"].split("::")[-1]
                if f["module"] == i["module"] or seg in i["ids"] or (x in uses.get(i["module"], ()) or "*" in uses.get(i["module"], ())) and seg in uses.get(i["module"], ()):
                    if n not in sel:
                        sel[n] = i; ch = True
        for m in i["methods"]:
            for tr in tmeth.get(m, ()):
                if tr not in TR and tr in uses.get(i["module"], set()) | set(i["ids"]):
                    TR.add(tr); ch = True
        return ch

    while True:
        ch = False
        for n, i in enumerate(items):
            k, o = i["kind"], owners(i)
            hit = None
            if o & T and k in ("impl", "method", "assoc", "macrouse", "other") and i["owner"]:
                # impl blocks for a type of the set, or for a foreign type generic over one
                hit = True
            elif k == "type" and i["name"] in T:
                hit = True
            elif k in ("trait", "traitmethod") and i["trait"] in TR:
                hit = True
            elif k == "macro" and i["name"] in M:
                hit = True
            elif k == "macrouse" and not i["owner"] and set(i["ids"]) & T:
                hit = True
            elif i["owner"] and i["trait"] in TR and not (o & types) and k in ("impl", "method", "assoc"):
                hit = True  # a trait of the set implemented for a foreign type
            if hit and n not in sel:
                sel[n] = i
                ch = True
        for n in list(sel):
            ch = mention(items[n], True) or ch
        if not ch:
            break
    # the builder's own items; what its methods hand over to the dispatcher is the dispatcher's business
    for n, i in enumerate(items):
        if builder in owners(i) or (i["kind"] == "type" and i["name"] == builder) or (i["kind"] == "macrouse" and not i["owner"] and builder in i["ids"]):
            sel.setdefault(n, i)
            mention(i, False)
    for n, i in enumerate(items):
        if i["kind"] == "macro" and i["name"] in M:
            sel.setdefault(n, i)
    return sel


def c16(rep, work, C):
    d = srcscan(C)
    if d["errors"]:
        rep.errors += d["errors"]
    items = d["items"]
    sel = closure(items)
    names = []
    for n in sorted(sel):
        i = items[n]
        nm = "::".join(x for x in (i["module"], i["owner"] and f"<{i['owner']}>", i["name"] or i["kind"]) if x)
        names.append(f"{i['kind']} {nm}")
        if i["unsafe"]:
            rel = i["file"].replace(str(C.REPO) + "/", "")
            rep.bad(f"unsafe|{nm}", f"{i['kind']} {nm} belongs to the portable path and contains unsafe code", f"{rel}:{i['unsafe'][0]}", "any cfg")
    rep.extra["source_items"] = names
    rep.extra["obligations"] = rep.extra.get("obligations", 0) + len(names)
    rep.extra["discharged"] = rep.extra.get("discharged", 0) + len(names) - sum(1 for n in sel if items[n]["unsafe"])
    rep.items = items


def c16_judge(rep):
    """functions of the call graph, looked up in the source"""
    items = getattr(rep, "items", [])
    byfile = {}
    for i in items:
        if i["kind"] in ("fn", "method", "traitmethod", "macro"):
            byfile.setdefault(i["file"], []).append(i)
    table, bad = {}, 0
    for cfg, vals in rep.values.items():
        for k, chain in vals.items():
            p = k.split("|")
            name, file, (lo, hi) = p[0], p[1], map(int, p[2].split("-"))
            c = [i for i in byfile.get(file, []) if i["line"] <= lo <= i["end"]]
            if not c:
                continue
            i = min(c, key=lambda i: i["end"] - i["line"])
            if len(p) > 3 and "HighwayBuildHasher" not in i["owner"].split():
                continue
            table[name] = f"{file}:{i['line']}-{i['end']}"
            if i["kind"] == "macro":
                un = [u for u in i["unsafe"] if u == lo or lo <= u <= hi]
            else:
                un = i["unsafe"]
            if un:
                rep.bad(f"unsafe|{name}", f"{name} is executed by a portable operation and contains unsafe code", f"{file}:{un[0]} ({chain})", cfg)
    rep.extra["functions_in_call_graph"] = table
    rep.extra["obligations"] = rep.extra.get("obligations", 0) + len(table)
    rep.extra["discharged"] = rep.extra.get("discharged", 0) + len(table) - bad
    rep.values = {}


# ------------------------------------------------------------------ C17
def c17_judge(rep):
    """the same observation must have the same bytes on every target"""
    seen = {}
    for cfg in sorted(rep.values):
        for k, v in rep.values[cfg].items():
            seen.setdefault(k, {}).setdefault(v, []).append(cfg)
    n = 0
    for k, vs in sorted(seen.items()):
        n += 1
        if len(vs) > 1:
            rep.bad(f"target|{k}", f"portable observation '{k}' differs between targets: " + "; ".join(f"{v[:40]} on {', '.join(c)}" for v, c in vs.items()), "cross-target comparison", "all targets")
    rep.extra["compared_across_targets"] = n


def extra(prop, rep, work, C):
    if prop == "C16":
        c16(rep, work, C)
    if prop == "C08" and not os.environ.get("HW_NOIR"):  # development only
        ir.run(rep, work, C)


def judge(prop, rep):
    if prop == "C16":
        c16_judge(rep)
    elif prop == "C17":
        c17_judge(rep)
    if prop == "C18":
        rep.extra["functions_without_body"] = sorted({k[7:] for v in rep.values.values() for k in v if k.startswith("opaque ")})
