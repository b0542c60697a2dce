"""The checks: one function per property."""
import re
from vlib import *

# ------------------------------------------------------------------------------------------------ structure
def structure(cfg):
    """(functions reachable from the entry points, events in them, everything)"""
    rows = absint("structure", ir(cfg))
    fns = {r["fn"]: r for r in rows if "fn" in r}
    entries = sorted(f for f in fns if f.startswith("vw_"))
    reach, st = set(), list(entries)
    while st:
        f = st.pop()
        if f in reach: continue
        reach.add(f); st += fns[f]["calls"]
    ev = [r for r in rows if "ev" in r and r["in"] in reach]
    return fns, entries, reach, ev, rows

NFUN = len(gen_wrap.T)
def floors(rep, entries):
    if len(entries) != NFUN: rep.found("module", "floor: entries", f"{len(entries)} entry points analysed, {NFUN} expected")

PURE_INTR = ("llvm.lifetime.", "llvm.expect.", "llvm.assume", "llvm.memcpy.", "llvm.memmove.", "llvm.memset.", "llvm.ctlz.", "llvm.cttz.", "llvm.ctpop.", "llvm.abs.", "llvm.umin.", "llvm.umax.", "llvm.smin.", "llvm.smax.",
    "llvm.sadd.", "llvm.uadd.", "llvm.ssub.", "llvm.usub.", "llvm.smul.", "llvm.umul.", "llvm.fptosi.sat.", "llvm.fptoui.sat.", "llvm.fshl.", "llvm.fshr.", "llvm.scmp.", "llvm.ucmp.", "llvm.fabs.", "llvm.copysign.", "llvm.bswap.", "llvm.bitreverse.",
    "llvm.floor.", "llvm.ceil.", "llvm.trunc.", "llvm.rint.", "llvm.sqrt.", "llvm.experimental.noalias.", "llvm.dbg.", "llvm.round.", "llvm.roundeven.", "llvm.fma.", "llvm.minnum.", "llvm.maxnum.", "llvm.invariant.", "llvm.nearbyint.")
SQRT_ASM = ("sqrtsd ${0:x}, ${0:x} [=&x,0,", "sqrtss ${0:x}, ${0:x} [=&x,0,")

def is_panic(n):
    return "core..panicking" in n or "core9panicking" in n or "panic_const" in n or "slice5index" in n or "unwrap_failed" in n or "expect_failed" in n or "panic_fmt" in n

def c_purity(pid):
    rep = Report(pid)
    nf = ni = nm = 0; cfgs = ["arch-rel", "arch-dbg", "none-rel", "soft-rel"]
    irs(cfgs)
    sample = []
    for cfg in cfgs:
        fns, entries, reach, ev, rows = structure(cfg)
        floors(rep, entries)
        for f in sorted(reach):
            r = fns[f]; nf += 1; ni += r["nins"]; nm += r["nmem"]
            for e in r["ext"]:
                if e.startswith(PURE_INTR) or is_panic(e): continue
                if "3fmt" in e: continue  # formatting of a panic message; unreachable in normal results
                rep.found(cfg.split("-")[0] + " " + r["name"], "external: " + e.split("17h")[0], f"calls {e}, which is not a pure operation")
        mg = {r.get("mutable_global") for r in rows} - {None}
        for e in ev:
            where = e["name"]
            k = e["ev"]
            if k == "asm":
                if e["what"].startswith(SQRT_ASM): continue
                rep.found(where, "asm", f"inline assembly `{e['what']}` at {e['loc']} is not a known pure operation")
            elif k == "volatile":
                gs = e["what"]
                import re
                names = re.findall(r'Glob\("([^"]+)"\)', gs)
                if names and not any(n in mg for n in names) and "Unknown" not in gs and "Arg" not in gs: continue  # volatile read of a constant
                rep.found(where, "volatile", f"volatile access to {gs} at {e['loc']}")
            elif k in ("global_write", "mutable_read", "mutable_escape"):
                rep.found(where, k, f"{k.replace('_', ' ')} of {e['what']} at {e['loc']}: the result can depend on earlier calls")
            elif k in ("unknown_write",):
                rep.found(where, k, f"store through a pointer that is neither a local nor a caller-provided output at {e['loc']}")
            elif k in ("atomic", "indirect_call", "inttoptr", "other"):
                rep.found(where, k, f"{k} {e['what']} at {e['loc']}")
            elif k == "ptrtoint" and cfg.endswith("rel"):
                rep.found(where, k, f"an address is turned into a number at {e['loc']}: the result can depend on the memory layout")
        for r in rows:
            if "thread_local" in r: rep.found("module", "thread_local", f"thread-local state {r['thread_local']}")
            if "external_global" in r: rep.found("module", "external_global: " + r["external_global"], f"reads a variable defined elsewhere: {r['external_global']}")
        sample.append(f"{cfg}: {len(reach)} reachable functions, mutable globals {sorted(mg)}")
    if nf < 4 * 300: rep.found("module", "floor: functions", f"only {nf} functions analysed")
    rep.cov = {"obligations": ni, "discharged": ni - len(rep.viol), "functions": nf, "instructions": ni, "memory_operations": nm, "configurations": cfgs, "samples": sample,
        "checker_cmd": f"python3 check.py {pid}", "trusted_base": ["rustc's LLVM IR emission", "the IR reader in absint/src/ll.rs", "the list of pure intrinsics in check.py"],
        "rule": "in every function reachable from an exported entry point: no store except to locals or output parameters, no read of mutable or external state, no call outside the crate except pure intrinsics and panics, no asm except a register-only sqrt, no volatile access except to locals or constants, no address-to-integer conversion in release builds"}
    rep.finish()

def c_freestanding(pid):
    """nothing is left for a C library or allocator to provide"""
    rep = Report(pid)
    cfgs = ["arch-rel", "none-rel", "soft-rel", "arch-dbg"]; irs(cfgs)
    LIBCALL = set("sin cos tan pow powi exp exp2 exp10 log log2 log10 fma fmuladd floor ceil trunc rint nearbyint round roundeven sqrt minnum maxnum minimum maximum minimumnum maximumnum ldexp frexp asin acos atan atan2 sinh cosh tanh lround lrint llround llrint sincos sincospi modf".split())
    nf = nc = 0
    for cfg in cfgs:
        fns, entries, reach, ev, rows = structure(cfg)
        floors(rep, entries)
        for f in sorted(reach):
            r = fns[f]; nf += 1; nc += r["ncalls"]
            for e in r["ext"]:
                if e.startswith("llvm.") and e.split(".")[1] in LIBCALL: rep.found(r["name"], "libcall: " + e, f"uses {e}, which the backend may lower to a call of the C library's function of that name ({cfg})")
                elif e.startswith("llvm.") or is_panic(e) or "4core" in e: continue
                else: rep.found(r["name"], "symbol: " + e.split("17h")[0], f"needs the external symbol {e} ({cfg})")
        for e in ev:
            if e["ev"] == "frem": rep.found(e["name"], "frem", f"floating-point remainder instruction at {e['loc']} becomes a call of fmod/fmodf ({cfg})")
            if e["ev"] == "indirect_call": rep.found(e["name"], "indirect", f"indirect call at {e['loc']}")
    # no self-recursion through the symbol libm itself would provide: bounded by the recursion check C03
    rep.cov = {"obligations": nc, "discharged": nc - len(rep.viol), "functions": nf, "call_sites": nc, "configurations": cfgs, "samples": [f"{len(entries)} entries, {len(reach)} reachable functions in {cfgs[-1]}"],
        "checker_cmd": f"python3 check.py {pid}", "trusted_base": ["rustc's LLVM IR emission", "absint/src/ll.rs", "the list of intrinsics the backend may lower to libm calls"],
        "rule": "every call target reachable from an exported entry point is defined in the crate, is core's panic support, or is an intrinsic that is never lowered to a math library call; no floating-point remainder instruction"}
    rep.finish()

def c_soft(pid):
    """force-soft-floats: only the portable code is compiled"""
    rep = Report(pid)
    cfgs = ["soft-rel", "soft-dbg"]; irs(cfgs)
    nf = 0; n = 0
    ALLOW = ("llvm.lifetime.", "llvm.expect.", "llvm.assume", "llvm.mem", "llvm.ctlz.", "llvm.cttz.", "llvm.ctpop.", "llvm.abs.i", "llvm.umin.", "llvm.umax.", "llvm.smin.", "llvm.smax.", "llvm.sadd.", "llvm.uadd.", "llvm.ssub.", "llvm.usub.", "llvm.smul.", "llvm.umul.", "llvm.fptosi.sat.", "llvm.fptoui.sat.", "llvm.fshl.", "llvm.fshr.", "llvm.scmp.", "llvm.ucmp.", "llvm.fabs.", "llvm.copysign.", "llvm.experimental.noalias.", "llvm.bswap.", "llvm.bitreverse.")
    for cfg in cfgs:
        fns, entries, reach, ev, rows = structure(cfg)
        floors(rep, entries)
        for f in sorted(reach):
            r = fns[f]; nf += 1; n += r["ncalls"]
            if "math::arch" in r["name"] or "core::core_arch" in r["name"] or "core_simd" in r["name"]: rep.found(r["name"], "arch", "architecture-specific function is reachable with force-soft-floats")
            for e in r["ext"]:
                if e.startswith("llvm.") and not e.startswith(ALLOW): rep.found(r["name"], "intrinsic: " + e, f"hardware float intrinsic {e} is used with force-soft-floats")
        for e in ev:
            if e["ev"] == "asm": rep.found(e["name"], "asm", f"inline assembly {e['what']} at {e['loc']} is used with force-soft-floats")
    # the detector must fire on the architecture build of the same tree (positive control)
    _, _, _, ev, _ = structure("arch-rel")
    ctl = sum(e["ev"] == "asm" for e in ev)
    rep.cov = {"obligations": n, "discharged": n - len(rep.viol), "functions": nf, "call_sites": n, "configurations": cfgs, "positive_control": f"{ctl} inline assembly sites are seen in the architecture build of the same tree",
        "samples": [f"{len(reach)} reachable functions in {cfgs[-1]}"], "checker_cmd": f"python3 check.py {pid}", "trusted_base": ["rustc's LLVM IR emission", "absint/src/ll.rs"],
        "rule": "no inline assembly, architecture module or hardware float intrinsic is reachable from any entry point in the force-soft-floats build"}
    rep.finish()


# ------------------------------------------------------------------------------------------------ absence of panics and undefined behaviour
RED_OK = {"assumption", "out-of-bounds", "add_overflow", "sub_overflow", "unwrap_failed"}
def red_ok(kind, task, key):
    """what the multi-word reduction may leave undecided: how many 24-bit words survive (number theory, see DESIGN.md)"""
    k = key.split(": ", 1)[-1]
    if kind == "dbg": return k in RED_OK
    # a scan down the words for one that is not zero could run below the first word
    if re.fullmatch(r"assumption \(index Ult \d+, below\)|out-of-bounds \(\d+ bytes, access \d+, below\)", k): return True
    if task == "rem_pio2_large": return False
    # with a recomputation, no more than twenty words are ever in use
    if k in ("remainder", "quadrant"): return True
    m = re.fullmatch(r"assumption \(index Ult (\d+)\)", k)
    if m: return int(m[1]) >= 20
    m = re.fullmatch(r"out-of-bounds \((\d+) bytes, access (\d+)\)", k)
    return bool(m) and int(m[1]) // int(m[2]) >= 20
def c_safety(pid, cfgs, kind, evals):
    rep = Report(pid)
    tot = {}; nob = 0; samples = []; red = []; wid = set()
    irs(cfgs)
    for cfg in cfgs:
        tasks, t = run_tasks(rep, "safety", cfg, "--evals", evals)
        floors(rep, [x["task"] for x in tasks])
        s = tally(tasks)
        for k, v in s.items(): tot[k] = tot.get(k, 0) + v
        nob += t[0]["total_obligations"]
        samples += [f"{cfg} {x['task']}: {x['sample']}" for x in tasks[::23]]
        for x in tasks: wid |= {w[0] for w in x["widened"]}
        rows = absint("reduction", ir(cfg), *(["--again"] if kind == "rel" else []))
        for x in rows:
            if "task" not in x: continue
            red.append({"config": cfg, "part": x["task"], "cells": x["evals"], "obligations": x["obligations"], "undecided": [f["key"] for f in x["found"]]})
            for f in x["found"]:
                if not red_ok(kind, x["task"], f["key"]): rep.found("rem_pio2_large", f["key"], f["text"] + f" [{cfg}]", f["definite"], f["cell"])
    rep.cov = {"obligations": nob, "discharged": nob - len({k for k in rep.resid}) - len(rep.viol), **tot, "configurations": cfgs, "multiword_reduction": red, "loops_generalised": sorted(wid), "samples": samples[:30],
        "checker_cmd": f"python3 check.py {pid}", "trusted_base": ["rustc's LLVM IR emission", "the transfer functions in absint/src/dom.rs and interp.rs", "the contract of rem_pio2_large: quadrant in 0..=7 and |remainder| <= pi/4 (see DESIGN.md)"],
        "rule": {"dbg": "every input of every entry point: no panic block is reachable (arithmetic overflow, bounds check, unwrap, unreachable), no out-of-bounds access, in the build with debug assertions and overflow checks",
                 "rel": "every input of every entry point: every load and store is inside its object, every llvm.assume and nsw/nuw/inbounds/noundef-style promise holds, no unreachable is reached, in the optimised build where bounds checks are compiled out"}[kind]}
    rep.finish()
def c_panic(pid): c_safety(pid, ["arch-dbg", "soft-dbg"] if TIER == "quick" else ["arch-dbg", "soft-dbg", "none-dbg"], "dbg", 1500 if TIER == "quick" else 8000)
def c_memory(pid): c_safety(pid, ["arch-rel", "soft-rel", "none-rel"], "rel", 20000 if TIER == "quick" else 200000)

# ------------------------------------------------------------------------------------------------ termination
# loops left undecided: the multi-word reduction with its helpers (bounded by the size of its work arrays, C02)
UNRANKED = {"rem_pio2_large": 13}
def c_terminates(pid):
    rep = Report(pid)
    cfgs = ["arch-rel", "soft-rel"]; irs(cfgs)
    nl = nr = nb = nu = nf = 0; samples = []; ne = 0; cycles = []
    for cfg in cfgs:
        fns, entries, reach, ev, rows = structure(cfg)
        floors(rep, entries)
        nf += len(reach)
        # recursion: a cycle among the reachable functions
        color = {}
        def visit(f, path):
            color[f] = 1
            for c in fns[f]["calls"]:
                if color.get(c) == 1:
                    cyc = path[path.index(c):] if c in path else [c]
                    cycles.append(f"{cfg}: " + " -> ".join(fns[x]["name"] for x in cyc + [c]))
                elif c not in color: visit(c, path + [c])
            color[f] = 2
        for e in entries:
            if e not in color: visit(e, [e])
        tasks, _ = run_tasks(Report("C00"), "safety", cfg, "--evals", 20000)
        red = [r for r in absint("reduction", ir(cfg)) if "task" in r]
        wid, it = {}, {}
        for t in tasks + red:
            for k, v in t["widened"]: wid[k] = wid.get(k, 0) + v
            for k, v in t["maxiter"]: it[k] = max(it.get(k, 0), v)
            for f in t["found"]:
                if f["key"].endswith(("budget", "recursion")): rep.found(t["task"], f["key"], f["text"], f["definite"], f["cell"])
        un = {}
        callers = {}
        for f in reach:
            for c in fns[f]["calls"]: callers.setdefault(c, set()).add(f)
        def owner(f, seen=()):
            """a helper called from a single trusted function counts as part of it"""
            n = fns[f]["name"].split("::")[-1]
            if n in UNRANKED or f in seen: return n
            o = {owner(c, seen + (f,)) for c in callers.get(f, ())}
            return o.pop() if len(o) == 1 and o <= set(UNRANKED) else n
        for l in rows:
            if "loop" not in l or l["in"] not in reach: continue
            nl += 1
            k = l["key"]
            if l["how"]: nr += 1; samples.append(f"{cfg} {k}: {l['how']}")
            elif k in it and k not in wid: nb += 1; samples.append(f"{cfg} {k}: at most {it[k]} iterations for any input")
            else: un.setdefault(owner(l["in"]), []).append(l)
        for f in fns.values():
            if f["fn"] in reach and f["irreducible"]: rep.found(f["name"], "irreducible", "control flow is irreducible; loops cannot be identified", False)
        for n, ls in un.items():
            nu += len(ls)
            if len(ls) > UNRANKED.get(n, 0):
                for l in ls: rep.found(n, "unbounded loop", f"no bound or ranking counter for the loop at {l['loc']} ({l['key']}) [{cfg}]", False)
        ne += len(entries)
    if nl < 100: rep.found("module", "floor: loops", f"only {nl} loops found")
    rep.cov = {"obligations": nl + nf, "discharged": nl + nf - nu, "functions": nf, "loops": nl, "loops_ranked_by_counter": nr, "loops_bounded_by_interpretation": nb, "loops_trusted": nu, "recursive_calls_bounded_by_interpretation": cycles, "entries": ne, "configurations": cfgs, "samples": samples[::7],
        "checker_cmd": f"python3 check.py {pid}", "trusted_base": ["rustc's LLVM IR emission", "absint/src/term.rs (ranking rule)", "absint/src/interp.rs", "the loops counted in UNRANKED in checks.py"],
        "rule": "every call cycle is left after a bounded number of calls for every cell of the input space, and every loop either has a counter with an odd constant step tested against a loop invariant on every iteration, or is unrolled completely (at most 80 iterations) for every cell of the input space"}
    rep.finish()

CHECKS = {"C01": c_panic, "C02": c_memory, "C03": c_terminates, "C04": c_purity, "C05": c_freestanding, "C06": c_soft}

# ------------------------------------------------------------------------------------------------ API
def c_wiring(pid):
    rep = Report(pid)
    cfgs = ["arch+methods-rel", "soft+methods-rel"]; irs(cfgs)
    pairs = [(f"vl_{t}_{m}__{n}", f"vw_{n}") for t in gen_wrap.H for m, n in sorted(gen_wrap.H[t].items())]
    os.makedirs(HERE + "/build", exist_ok=True)
    pf = HERE + "/build/pairs.txt"; open(pf, "w").write("".join(f"{a} {b}\n" for a, b in pairs))
    n = ok = 0; samples = []
    for cfg in cfgs:
        rows = {r["pair"]: r for r in absint("wiring", ir(cfg), "--pairs", pf, "--evals", 20000) if "pair" in r}
        for a, b in pairs:
            n += 1
            r = rows.get(a)
            t, m = a[3:].split("__")[0].split("_", 1)
            w = f"Libm<{t}>::{m}"
            if r is None or r["result"] == "missing": rep.found(w, "missing", f"no analysis of {a} [{cfg}]"); continue
            if r["result"] == "equal": ok += 1; samples.append(f"{cfg}: {w} has the code of {b[3:]}"); continue
            if r["result"] == "differ": rep.found(w, "differs", f"{w} is not {b[3:]}: {r['text']} [{cfg}]")
            else: rep.found(w, "not shown equal", f"the code behind {w} is not that of {b[3:]} ({r['result']}) [{cfg}]", False)
    rep.cov = {"obligations": n, "discharged": ok, "methods": len(pairs), "configurations": cfgs, "samples": samples[::17], "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's LLVM IR emission", "absint/src/wiring.rs (canonical form of a function's code)", "the method table H in gen_wrap.py"],
        "rule": "for every Libm<T> method, the code reached from it is, up to renaming, the code reached from the free function of the same name and type"}
    rep.finish()

def pub_items(path):
    """names re-exported by the `pub use self::x::{..}` lines of math/mod.rs, with the cfg groups ignored"""
    s = re.sub(r"//[^\n]*", "", open(path).read())
    out = set()
    for m in re.finditer(r"pub use self::[\w:]+::(\{[^}]*\}|\w+)\s*;", s):
        out |= set(re.findall(r"\w+", m.group(1)))
    return out

def c_api(pid):
    rep = Report(pid)
    cfgs = ["arch+methods-rel", "none+methods-rel", "soft+methods-rel", "intr+methods-rel", "stbl+methods-rel", "arch+methods-dbg", "soft+methods-dbg"]
    samples = []; n = ok = 0
    from concurrent.futures import ThreadPoolExecutor
    irs([])
    def one(c):
        try: ir(c); return None
        except BuildError as e: return str(e)
    with ThreadPoolExecutor(4) as ex: errs = list(ex.map(one, cfgs))
    nent = len(gen_wrap.T) + sum(len(x) for x in gen_wrap.H.values())
    for c, e in zip(cfgs, errs):
        n += nent
        if e:
            names = sorted(set(re.findall(r"`(\w+)`", e)))
            rep.found(c, "does not compile", f"the API table does not type-check in configuration {c}: {names} {e[:900]}"); continue
        ok += nent; samples.append(f"{c}: {nent} functions and methods type-check with the signatures of the API table")
    # the lists kept beside the code
    lst = {l.strip() for l in open(REPO + "/etc/function-list.txt") if l.strip() and not l.startswith("#")}
    n += 2
    want = {x[0] for x in gen_wrap.T}
    for x in sorted(want - lst): rep.found(x, "not listed", f"{x} is missing from etc/function-list.txt")
    ok += 1
    sh = open(REPO + "/crates/libm-macros/src/shared.rs").read()
    names = re.findall(r'"(\w+)"', sh.split("ALL_OPERATIONS_NESTED", 1)[1].split("];", 1)[0])
    for x in sorted(want - set(names)): rep.found(x, "not in ALL_OPERATIONS", f"{x} is missing from the table that generates the tests")
    for x in sorted({x for x in names if names.count(x) > 1}): rep.found(x, "duplicate", f"{x} appears twice in ALL_OPERATIONS")
    ok += 1
    rep.cov = {"obligations": n, "discharged": ok, "entries": nent, "configurations": cfgs, "samples": samples, "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's type checker", "the API table in gen_wrap.py"],
        "rule": "one function per table row, with the exact argument and result types of the table, is compiled against the crate in every configuration; a function that is missing, renamed or has another type in one of them does not compile"}
    rep.finish()
CHECKS.update({"C22": c_wiring, "C23": c_api})

Q = TIER == "quick"
# ------------------------------------------------------------------------------------------------ exact classes
import exact
def exact_part(rep, pid, cfg, total=10**12):
    """rows of exact.py decided by the affine domain (absint/src/aff.rs)"""
    rows = exact.rows(pid, not Q)
    rf = f"{HERE}/build/exact.{pid}"; open(rf, "w").write("\n".join(rows) + "\n")
    groups = {}
    for r in rows: c = [x.strip() for x in r.split("|")]; groups.setdefault(f"{c[0]}|{c[1]}", []).append(c)
    n = full = cells = proven = 0; undec = {}; samples = []; classes = {}; seen = 0
    for j in absint("exact", ir(cfg), "--file", rf, "--evals", 300 if Q else 2000, "--total", total):
        if "missing" in j: rep.found(j["missing"], "missing", f"no entry point {j['missing']} [{cfg}]"); continue
        seen += 1
        g = groups[j["task"]]; fn = j["task"].split("|")[1]
        n += len(g); cells += j["evals"]; proven += j["proven"]
        bad = [f for f in j["found"] if f["definite"]]
        for f in bad: rep.found(fn, "exact result", f"{f['text'][:300]} [{cfg}]", True, f"row {f['cell']}: " + " | ".join(g[int(f["cell"].rsplit(",", 1)[1])])[:300] if "," in f["cell"] else f["cell"])
        if j["unproven"] and not bad: undec[j["task"]] = f"undecided in {j['unproven']} of {j['evals']} cells, e.g. {j['found'][0]['cell'][:120]}: {j['found'][0]['text'][:120]} [{cfg}]"
        elif not bad: full += len(g)
        classes[j["task"]] = {"rows": len(g), "inputs": str(sum(int(c[3], 16) + 1 for c in g)), "cells": j["evals"], "proven": j["proven"], "undecided": j["unproven"]}
        if j.get("sample"): samples.append(f"{cfg} {j['task']}: {j['sample']}"[:300])
    if seen != len(groups) and not rep.viol: rep.found("module", "floor: rows", f"{seen} of {len(groups)} groups evaluated [{cfg}]")
    return dict(n=n, full=full, cells=cells, proven=proven, undec=undec, samples=samples, classes=classes, fns=sorted({k.split("|")[1] for k in groups}))
EXACT_RULE = "For each row the arguments run through base + stride * k for every k of a range and the true result is an integer-linear function of k times a power of two. The computed result is followed exactly as a linear form over k and over floors of such forms (every rounding, shift, mask and carry of the code included) and compared with the correctly rounded true result; ranges of k are split until the two forms agree. A violation is reported when the forms differ for every k of a range, or for one k."
def exact_cov(e): return {"exact_classes": e["classes"], "exact_classes_total": e["n"], "exact_classes_undecided": e["undec"]} if e["n"] else {}
def c_exact(pid, what):
    rep = Report(pid)
    irs(["arch-rel"])
    os.makedirs(HERE + "/build", exist_ok=True)
    e = exact_part(rep, pid, "arch-rel")
    rep.level = "proof" if e["full"] == e["n"] else "other"
    rep.cov = {"obligations": e["n"], "discharged": e["full"], "explanation": f"{e['full']} of {e['n']} classes lie in groups proven completely; {len(e['undec'])} groups undecided on part of their classes", "cells_evaluated": e["cells"], "cells_proven": e["proven"], "functions": len(e["fns"]), "configurations": ["arch-rel"],
        "classes": e["classes"], "undecided": e["undec"], "samples": e["samples"], "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's LLVM IR emission", "the transfer functions in absint/src/dom.rs and interp.rs", "the affine domain in absint/src/aff.rs", "the rows in exact.py"], "rule": what + " " + EXACT_RULE}
    rep.finish()
CHECKS["C21"] = lambda pid: c_exact(pid, "Fused multiply-add.")

# ------------------------------------------------------------------------------------------------ result-set contracts
import rulesets
def c_rules(pid, cfgs, evals, total, what):
    rep = Report(pid)
    irs(cfgs)
    rules = rulesets.SETS[pid]()
    os.makedirs(HERE + "/build", exist_ok=True)
    rf = f"{HERE}/build/rules.{pid}"; open(rf, "w").write("\n".join(rules) + "\n")
    full = und = cells = proven = un = 0; undec = {}; samples = []; fns = set()
    for cfg in cfgs:
        rows = absint("rules", ir(cfg), "--file", rf, "--evals", evals, "--scale", 1 if TIER == "quick" else 10, "--total", total)
        for r in rows:
            if "missing" in r: rep.found(r["missing"].split("|")[0][:60], "missing", f"no entry point or wrong number of arguments for: {r['missing'][:120]} [{cfg}]"); continue
            _, fn, ln = r["task"].split("|"); rule = rules[int(ln)].split("|")
            fns.add(fn); cells += r["evals"]; proven += r["proven"]; un += r["unproven"]
            txt = f"for arguments in ({'; '.join(x[:80] for x in rule[2:-1])}) the result must be in {rule[-1][:80]}"
            bad = [f for f in r["found"] if f["definite"]]
            for f in bad: rep.found(fn, txt, f"{f['text'][:200]} [{cfg}]", True, "input " + f["cell"])
            if r["found"] and not bad: und += 1; undec.setdefault(fn, []).append(f"{txt}: undecided in {r['unproven']} of {r['evals']} cells [{cfg}]")
            elif not r["found"]: full += 1
            if len(samples) < 400 and r.get("sample"): samples.append(f"{cfg} {fn}: {txt}: {r['sample']}"[:300])
    rep.level = LEVEL.get(pid, "proof")
    e = exact_part(rep, pid, cfgs[0]) if pid in exact.SETS else dict(n=0, full=0)
    rep.cov = {"obligations": len(rules) * len(cfgs) + e["n"], "discharged": full + e["full"], "explanation": f"{full} of {len(rules) * len(cfgs)} rules proven for every input of their argument sets; {und} undecided on part of it", "rules_proven_for_all_inputs": full, "rules_partly_undecided": und, "cells_evaluated": cells, "cells_proven": proven, "functions": len(fns), "configurations": cfgs,
        "undecided": undec, "samples": samples[::max(1, len(samples) // 25)], "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's LLVM IR emission", "the transfer functions in absint/src/dom.rs and interp.rs", "the rule table in rulesets.py", "the contract of rem_pio2_large (DESIGN.md)"],
        **exact_cov(e), "rule": what + " " + (EXACT_RULE + " " if e["n"] else "") + "A rule is proven when the abstract result of every cell of the argument set lies in the result set; a violation is reported with the input on which the result provably lies outside. A rule that stays undecided on some cells is listed under `undecided` and raises no alarm."}
    rep.finish()
LEVEL = {"C08": "other", "C09": "other", "C11": "other"}
CHECKS["C07"] = lambda pid: c_rules(pid, ["arch-rel", "soft-rel"], 20000, 400000000, "NaN arguments.")
CHECKS["C08"] = lambda pid: c_rules(pid, ["arch-rel"], 3000 if Q else 60000, 150000000 if Q else 2000000000, "Domain of every function.")
CHECKS["C09"] = lambda pid: c_rules(pid, ["arch-rel"], 4000 if Q else 60000, 150000000 if Q else 2000000000, "Zeros, infinities and exact points.")
CHECKS["C11"] = lambda pid: c_rules(pid, ["arch-rel"], 5000 if Q else 60000, 150000000 if Q else 2000000000, "Ranges.")

# ------------------------------------------------------------------------------------------------ relations between results
import relations
def c_relations(pid, cfgs, evals, total, what):
    rep = Report(pid)
    irs(cfgs)
    rels = relations.SETS[pid]()
    os.makedirs(HERE + "/build", exist_ok=True)
    rf = f"{HERE}/build/relations.{pid}"; open(rf, "w").write("\n".join(rels) + "\n")
    full = und = cells = proven = un = 0; undec = {}; samples = []; fns = set()
    for cfg in cfgs:
        seen = 0
        for r in absint("rel", ir(cfg), "--file", rf, "--evals", evals, "--scale", 1 if Q else 10, "--total", total):
            if "missing" in r: rep.found(r["missing"], "missing", f"no entry point {r['missing']} [{cfg}]"); continue
            seen += 1
            row = [x.strip() for x in rels[int(r["task"].split("|")[-1])].split("|")]
            fn = re.search(r"(?<![$\w])[a-z]\w+(?=\()", row[2]).group(0)
            fns |= set(re.findall(r"(?<![$\w])[a-z]\w+(?=\()", row[2] + " " + row[3]))
            cells += r["evals"]; proven += r["proven"]; un += r["unproven"]
            txt = f"{row[2]} = {row[3]}" + {"zs": " (up to the sign of zero)", "nz": " (where no intermediate result is zero)"}.get(row[1].split(":")[0], "") + " for " + ", ".join(f"{v} in {s[:70]}" for v, s in zip("xyzw", row[4:]))
            bad = [f for f in r["found"] if f["definite"]]
            for f in bad: rep.found(fn, txt, f"{f['text'][:300]} [{cfg}]", True, "input " + f["cell"])
            if not bad and (r["found"] or r["unproven"]): und += 1; undec.setdefault(fn, []).append(f"{txt}: undecided in {r['unproven']} of {r['evals']} cells [{cfg}]")
            elif not bad: full += 1
            samples.append(f"{cfg}: {txt}: {r['proven']} cells"[:300])
        if seen != len(rels) and not rep.viol: rep.found("module", "floor: relations", f"{seen} of {len(rels)} relations evaluated [{cfg}]")
    rep.level = "proof" if pid not in ("C10", "C19") else "other"
    e = exact_part(rep, pid, cfgs[0]) if pid in exact.SETS else dict(n=0, full=0)
    rep.cov = {"obligations": len(rels) * len(cfgs) + e["n"], "discharged": full + e["full"], "explanation": f"{full} of {len(rels) * len(cfgs)} relations proven for every input of their argument sets; {und} undecided on part of it", "relations_proven_for_all_inputs": full, "relations_partly_undecided": und, "cells_evaluated": cells, "cells_proven": proven, "functions": len(fns), "configurations": cfgs,
        "undecided": undec, "samples": samples[::max(1, len(samples) // 25)], "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's LLVM IR emission", "the transfer functions in absint/src/dom.rs and interp.rs", "the value-number rules in absint/src/vn.rs", "the reference operations in absint/src/rel.rs", "the relation table in relations.py"],
        **exact_cov(e), "rule": what + " " + (EXACT_RULE + " " if e["n"] else "") + "A relation is proven when, on every cell of a partition of the argument sets, both sides have the same symbolic value (hash-consed value numbers of the whole computation, normalised by identities that IEEE 754 and two's complement arithmetic guarantee exactly) or the same constant. A violation is reported with the input on which both sides provably differ. A relation that stays undecided on some cells is listed under `undecided` and raises no alarm."}
    rep.finish()
RC = ["arch-rel", "soft-rel"]
CHECKS["C10"] = lambda pid: c_relations(pid, RC, 20000 if Q else 40000, 100000000 if Q else 1000000000, "Reflection symmetries.")
CHECKS["C17"] = lambda pid: c_relations(pid, RC + ["none-rel", "arch-dbg"], 40000 if Q else 400000, 100000000, "Rounding to an integral value equals the reference rounding on bits.")
CHECKS["C18"] = lambda pid: c_relations(pid, RC + ["arch-dbg"], 20000 if Q else 100000, 100000000, "Sign, exponent and neighbour operations equal their reference.")
CHECKS["C19"] = lambda pid: c_relations(pid, RC, 80000 if Q else 200000, 800000000, "Remainders of small dividends.")
CHECKS["C20"] = lambda pid: c_relations(pid, RC + ["arch-dbg"], 20000 if Q else 100000, 100000000, "Minimum and maximum equal their reference.")
CHECKS["C25"] = lambda pid: c_relations(pid, RC, 20000 if Q else 40000, 100000000 if Q else 1000000000, "Functions defined through each other agree.")

# ------------------------------------------------------------------------------------------------ accuracy
import accuracy
def c_accuracy(pid, what):
    rep = Report(pid)
    rows = accuracy.SETS[pid]()
    cfgs = sorted({r["cfg"] for r in rows}); irs(cfgs)
    os.makedirs(HERE + "/build", exist_ok=True)
    full = part = cells = proven = un = 0; undec = {}; table = {}; samples = []; fns = set(); n = 0
    for cfg in cfgs:
        rs = [r for r in rows if r["cfg"] == cfg and r[TIER]]
        rf = f"{HERE}/build/accuracy.{pid}.{cfg}"
        open(rf, "w").write("".join(f"{r['fn']}@{(r['ev'] or 400000) * (1 if Q else 6)} | {r['expr']} | {r['comp']} | {r['ref']} | {r['ulps']} | {r['abs']} | 12 | {r[TIER]}\n" for r in rs))
        seen = 0
        for j in absint("accuracy", ir(cfg), "--file", rf, "--total", 10**15):
            if "missing" in j: rep.found(j["missing"], "missing", f"no entry point for {j['missing']} [{cfg}]"); continue
            seen += 1; n += 1
            r = rs[int(j["task"].split("|")[-1])]
            fns.add(r["fn"]); cells += j["evals"]; proven += j["proven"]; un += j["unproven"]
            txt = f"{r['expr']}{'.' + str(r['comp']) if 'sincos' in r['fn'] else ''} within {r['ulps']} ulp" + (f" or {r['abs']}" if r["abs"] else "") + f" of the true value of {r['ref']} for x in {r[TIER]}"
            bad = [f for f in j["found"] if f["definite"]]
            for f in bad: rep.found(r["fn"], f"{r['expr']}: accuracy", f"{f['text'][:300]}: {txt} [{cfg}]", True, "input " + f["cell"])
            if not bad and j["unproven"]: part += 1; undec.setdefault(r["fn"], []).append(f"{txt}: undecided in {j['unproven']} of {j['evals']} cells, e.g. {j['found'][0]['cell'][:120] if j['found'] else ''}: {j['found'][0]['text'][:160] if j['found'] else ''} [{cfg}]")
            elif not bad: full += 1
            table[f"{cfg} {r['expr']}#{r['comp']} ({r['ref']}) {r[TIER][:60]}"] = {"allowed_ulp": r["ulps"], "allowed_abs": r["abs"], "largest_proven_error_ulp": j["worst"], "cells": j["evals"], "proven": j["proven"], "undecided": j["unproven"]}
            samples.append(f"{txt}: {j['proven']} cells proven [{cfg}]")
        if seen != len(rs) and not rep.viol: rep.found("module", "floor: rows", f"{seen} of {len(rs)} rows evaluated [{cfg}]")
    rep.level = "proof" if not part else "other"
    rep.cov = {"obligations": n, "discharged": full, "explanation": f"{full} of {n} rows proven on every cell of their intervals; {part} undecided on part of it", "rows_proven": full, "rows_partly_undecided": part, "cells_evaluated": cells, "cells_proven": proven, "functions": len(fns), "configurations": cfgs,
        "errors": table, "undecided": undec, "samples": samples[::max(1, len(samples) // 25)], "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc's LLVM IR emission", "the transfer functions in absint/src/dom.rs and interp.rs", "Taylor models in absint/src/tm.rs in 113-bit arithmetic with a slop term", "glibc's f128 functions as reference values at the centre of a cell", "the rows in accuracy.py", "the contract of rem_pio2_large (DESIGN.md)"],
        "rule": what + " For every cell of a partition of the interval of x the computed expression (with every rounding of the code) and the true function are enclosed by Taylor models over the cell; a row is proven when the difference of the models is within the allowed error on every cell. A violation is reported when the difference provably exceeds it on a cell or on a single input. A row that stays undecided on some cells is listed under `undecided` and raises no alarm."}
    rep.finish()
for _p, _w in (("C12", "Exponentials and logarithms."), ("C13", "Trigonometric functions."), ("C14", "Inverse trigonometric and hyperbolic functions."), ("C15", "Error, gamma and Bessel functions."), ("C16", "Powers and roots.")):
    CHECKS[_p] = lambda pid, w=_w: c_accuracy(pid, w)
