"""Shared machinery of the checks: building the engine, compiling driver units against /repo, running the
analyses in parallel, evidence and verdicts."""
import os, sys, json, time, subprocess, hashlib, tempfile, re, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
MIFLOW = os.path.join(BUILD, "miflow")
MIORD = os.path.join(BUILD, "miord")
MISHAPE = os.path.join(BUILD, "mishape")
MIARR = os.path.join(BUILD, "miarr")
GUARD = "/opt/vp/cmake/guard"
NPROC = os.cpu_count() or 8

class AnalysisError(Exception):
    pass

def include_flags():
    f = ["-I" + os.path.join(REPO, "include")]
    if os.path.isdir(GUARD):
        f += ["-isystem", GUARD]
    return f + ["-I" + os.path.join(ROOT, "drivers")]

def build_engine():
    r = subprocess.run(["bash", os.path.join(ROOT, "engine", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(MIFLOW):
        raise AnalysisError("engine does not build: " + r.stdout[-2000:])

def build_engine2():
    r = subprocess.run(["bash", os.path.join(ROOT, "engine2", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(MIORD):
        raise AnalysisError("engine2 does not build: " + r.stdout[-2000:])

def build_engine3():
    r = subprocess.run(["bash", os.path.join(ROOT, "engine3", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(MISHAPE):
        raise AnalysisError("engine3 does not build: " + r.stdout[-2000:])

def build_engine4():
    r = subprocess.run(["bash", os.path.join(ROOT, "engine4", "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(MIARR):
        raise AnalysisError("engine4 does not build: " + r.stdout[-2000:])

class Scratch:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.d = tempfile.mkdtemp(prefix="run.", dir=BUILD)
    def __enter__(self): return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def compile_bc(src, defs, out, std="c++17", opt="-O1"):
    cmd = ["clang++", "-std=" + std, opt, "-Xclang", "-disable-llvm-passes", "-g", "-DNDEBUG", "-fno-access-control",
           "-fno-discard-value-names", "-Wno-everything"] + include_flags() + ["-emit-llvm", "-c", src, "-o", out] + list(defs)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        e = [l for l in r.stdout.splitlines() if "error" in l]
        raise AnalysisError("driver does not compile against %s (%s %s): %s" % (REPO, os.path.basename(src), " ".join(defs), "; ".join(e[:3])[:900]))

PROBLEMS = []  # units that could not be analysed: reported as undecided; if nothing could be analysed at all the check gives no answer
def compile_unit(src, defs, out):
    try: compile_bc(src, defs, out); return out
    except AnalysisError as e: PROBLEMS.append(str(e)); return None

def run_miflow(bc, args, timeout, tool=None):
    if bc is None: return None
    try: return run_engine(bc, args, timeout, tool)
    except AnalysisError as e: PROBLEMS.append(str(e)); return None

def run_engine(bc, args, timeout, tool):
    try:
        r = subprocess.run([tool or MIFLOW, bc] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode:
        raise AnalysisError("miflow failed on %s %s: rc=%d %s" % (os.path.basename(bc), args, r.returncode, r.stderr[-500:]))
    try:
        return json.loads(r.stdout)
    except Exception as e:
        raise AnalysisError("miflow output unreadable: %s" % e)

def parallel(fn, items, n=None):
    with ThreadPoolExecutor(max_workers=n or NPROC) as ex:
        return list(ex.map(fn, items))

# ------------------------------------------------------------------ verdicts
def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out

def finish(prop, tier, t0, coverage, violations, undecided, assumptions, level="other"):
    """violations: list of dict(rule, where, msg, unit, function, trail). Writes evidence, prints the verdict, returns exit code."""
    known = known_findings(prop)
    new, hit = [], {}
    for v in violations:
        key = "%s|%s|%s" % (v.get("function", ""), v.get("rule", ""), v.get("where", ""))
        for k, txt in known:
            if re.search(k, key):
                hit[k] = txt
                break
        else:
            new.append(v)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    coverage = dict(coverage)
    if undecided:
        coverage["undecided"] = sorted(set(undecided))[:60]
        coverage["undecided_count"] = len(set(undecided))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for k, txt in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, txt))
    if new:
        rp = os.path.join(d, "replay-%s.txt" % prop)
        with open(rp, "w") as f:
            f.write("Violations of %s found by static analysis of %s. Re-run: python3 checks/run.py %s %s\n" % (prop, REPO, prop, tier))
            for v in new[:200]:
                f.write("\n[%s] %s\n  unit: %s\n  entry: %s\n  at: %s\n" % (v.get("rule"), v.get("msg"), v.get("unit", ""), v.get("function", ""), v.get("where", "")))
                for t in v.get("trail", []):
                    f.write("    path: %s\n" % t)
        seen = set()
        for v in new:
            k = (v.get("rule"), v.get("where", "").split(" <- ")[0])
            if k in seen: continue
            seen.add(k)
            if len(seen) > 12: break
            print("  [%s] %s\n      at %s (entry %s, %s)" % (v.get("rule"), v.get("msg"), v.get("where", "")[:300], v.get("function", ""), v.get("unit", "")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s tier=%s wall=%.1fs %s" % (prop, tier, time.time() - t0, ", ".join("%s=%s" % (k, v) for k, v in coverage.items() if isinstance(v, int))))
    return 0
