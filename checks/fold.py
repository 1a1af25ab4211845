"""Product functions decided by compiler simplification: a function that states an equality and reduces to the constant
true under LLVM's semantics-preserving transformations satisfies it for every input, and has no side effect."""
import os, re, subprocess
import common
from common import AnalysisError, parallel, Scratch, ROOT, include_flags
SEL = {"C29": "kx", "C20": "bpos"}
WHAT = {"C29": ("extractor", "extractor %s on argument form %s does not reduce to the designated part without side effects"),
  "C20": ("bucket position", "%s for table size number %s does not reduce to: the remainder of the hash value by that size, sizes growing")}
def run(prop, tier):
    src = SEL[prop]; viol, n, instr = [], 0, 0
    cfgs = [["-std=c++17", "-O2"]] + ([["-std=c++20", "-O2"], ["-std=c++17", "-O3"]] if tier == "thorough" else [])
    with Scratch() as d:
        def comp(k):
            o = os.path.join(d, "%d.ll" % k); f = os.path.join(ROOT, "drivers", src + ".cpp")
            r = subprocess.run(["clang++"] + cfgs[k] + ["-Wno-everything", "-ferror-limit=0"] + include_flags() + ["-S", "-emit-llvm", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                e = [l for l in r.stdout.splitlines() if " error: " in l]; at = [l for l in r.stdout.splitlines() if src + ".cpp:" in l]
                return None, (e[:1] or [r.stdout[-300:]])[0], (at[:1] or [""])[0]
            return open(o).read(), None, None
        res = parallel(comp, range(len(cfgs)))
    for k, (txt, err, at) in enumerate(res):
        unit = "%s.cpp [%s]" % (src, " ".join(cfgs[k]))
        if txt is None:
            if "fatal error" in err and "file not found" in err: raise AnalysisError(err[:300])
            if prop != "C29": raise AnalysisError(err[:300])
            m = re.search(src + r"\.cpp:(\d+):(\d+)", at); name = "?"
            viol.append({"rule": "documented use rejected", "where": m.group(0) if m else "", "function": src + ".cpp", "unit": unit, "msg": err[-300:], "trail": [at]}); continue
        for m in re.finditer(r"^define [^\n]*@(chk_\w+)\([^\n]*\{\n(.*?)^\}", txt, re.S | re.M):
            body = [re.sub(r", !.*", "", l.strip()) for l in m.group(2).splitlines() if l.strip() and not re.match(r"^[\w.]+:", l)]
            n += 1; instr += len(body)
            if body != ["ret i1 true"]:
                nm = m.group(1)[4:]; ex, form = nm.rsplit("_", 1)
                viol.append({"rule": WHAT[prop][0], "where": nm, "function": m.group(1), "unit": unit, "msg": WHAT[prop][1] % (ex, form), "trail": body[:8]})
    if n == 0 and not viol: raise AnalysisError("no product function analysed")
    return viol, [], {"product_functions": n, "residual_instructions": instr, "configurations": len(cfgs)}
