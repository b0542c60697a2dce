#!/usr/bin/env python3
"""shared parts: builds the IR, runs the analyser, reports.  check.py ID decides one property of /repo's current tree by static analysis of its LLVM IR (see DESIGN.md).
exit 0: held on everything analysed; exit 1: VIOLATION line printed; anything else: the check itself failed."""
import hashlib, json, os, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ABSINT = os.path.join(HERE, "build/absint/release/absint")
sys.path.insert(0, HERE)
import gen_wrap

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()

class BuildError(Exception):
    pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def ensure_absint():
    if not os.path.exists(ABSINT):
        r = subprocess.run([os.path.join(HERE, "build_absint.sh")], capture_output=True, text=True)
        if r.returncode: log(r.stderr[-3000:]); raise SystemExit(3)

def src_hash():
    h = hashlib.sha256()
    for root in (REPO + "/libm", HERE + "/wrap"):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("emit.sh",): h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()[:16]

_HASH = None
def ir(cfg):
    """directory with libm.ll and wrap.ll for one configuration of the current tree"""
    global _HASH
    if _HASH is None: _HASH = src_hash()
    base = os.path.join(HERE, "build/ir", cfg)
    d = os.path.join(base, _HASH)
    if not (os.path.exists(d + "/libm.ll") and os.path.exists(d + "/wrap.ll")):
        if os.path.isdir(base): shutil.rmtree(base)
        r = subprocess.run([os.path.join(HERE, "emit.sh"), cfg, d], capture_output=True, text=True)
        if r.returncode == 3: raise BuildError(r.stdout[-4000:])
        if r.returncode: log(r.stdout[-2000:], r.stderr[-2000:]); raise SystemExit(3)
    return d

def irs(cfgs):
    from concurrent.futures import ThreadPoolExecutor
    ir_hash = src_hash()
    global _HASH
    _HASH = ir_hash
    with ThreadPoolExecutor(4) as ex: return list(ex.map(ir, cfgs))

def absint(*args):
    ensure_absint()
    r = subprocess.run([ABSINT, *[str(a) for a in args]], capture_output=True, text=True)
    if r.returncode: log(r.stderr[-3000:]); raise SystemExit(3)
    return [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]

def table(name):
    p = os.path.join(HERE, name)
    return json.load(open(p)) if os.path.exists(p) else []

class Report:
    def __init__(self, pid):
        self.pid = pid; self.viol = []; self.known = []; self.resid = []; self.cov = {}; self.level = "proof"
        self.findings = [k for k in table("known-findings.json") if k["property"] == pid and k.get("status", "open") == "open"]
        self.residual = [k for k in table("residual.json") if k["property"] == pid]
    def found(self, entry, key, text, definite=True, cell=""):
        """one failed obligation; entry/key identify it without line numbers"""
        for k in self.findings:
            if k["entry"] == entry and k["key"] == key: self.known.append((k, text)); return
        if not definite:
            for k in self.residual:
                if (k["entry"] == "*" or entry in k["entry"].split()) and (k["kind"] == key.split(": ")[-1] or k["kind"] == "*"): self.resid.append((entry, key)); return
        self.viol.append({"entry": entry, "key": key, "text": text, "definite": definite, "cell": cell})
    def finish(self):
        os.makedirs(HERE + "/evidence", exist_ok=True); os.makedirs(HERE + "/build/replay", exist_ok=True)
        seen = set()
        for k, t in self.known:
            if k["key"] not in seen: print(f"KNOWN-FINDING: property={self.pid} {k['entry']}: {k['what']}"); seen.add(k["key"])
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov, "wall_s": round(time.time() - T0, 2)}
        ev["coverage"]["residual_undecided"] = sorted({f"{e}: {k}" for e, k in self.resid})
        ev["coverage"]["known_findings"] = sorted({k["key"] for k, _ in self.known})
        ev["coverage"]["violations"] = self.viol[:50]
        json.dump(ev, open(f"{HERE}/evidence/{self.pid}.json", "w"), indent=1)
        if self.viol:
            path = f"{HERE}/build/replay/{self.pid}.json"
            json.dump(self.viol, open(path, "w"), indent=1)
            for v in self.viol[:20]: print(f"  {v['entry']}: {v['key']}: {v['text']} {'' if v['definite'] else '(not proven) '}{v['cell']}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)
        print(f"property {self.pid} held: {json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})}")
        sys.exit(0)

# ------------------------------------------------------------------------------------------------ abstract interpretation
def run_tasks(rep, mode, cfg, *args, keyf=None):
    rows = absint(mode, ir(cfg), *args)
    tasks = [r for r in rows if "task" in r]
    tot = [r for r in rows if "total_obligations" in r]
    for t in tasks:
        for f in t["found"]:
            rep.found(t["task"], f["key"] if keyf is None else keyf(f["key"]), f["text"] + f" [{cfg}, {f['count']} cells]", f["definite"], "input " + f["cell"])
    return tasks, tot

def tally(tasks):
    return {"entries": len(tasks), "cells_evaluated": sum(t["evals"] for t in tasks), "cells_proven": sum(t["proven"] for t in tasks), "cells_unproven": sum(t["unproven"] for t in tasks), "abstract_steps": sum(t["steps"] for t in tasks), "cpu_s": round(sum(t["secs"] for t in tasks), 1)}

