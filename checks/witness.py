"""Compile-time witnesses: obligations stated as static_asserts, and ill-formed programs that must not compile (each with a well-formed twin)."""
import os, re, subprocess
import common
from common import AnalysisError, parallel, Scratch, ROOT, include_flags
WIT = os.path.join(ROOT, "witness")
KINDS = ["OU", "ON", "HU", "HN", "SQ", "RA", "RU", "RN"]
def cases():
    out, cur = [], None
    for l in open(os.path.join(WIT, "neg.txt")):
        if l.startswith("#") and not l.startswith("##"): continue
        if l.startswith("## "):
            r, d = l[3:].strip().split(" | ", 1); cur = [r, d, "", "", 0]; out.append(cur)
        elif l.startswith("----"): cur[4] = 1
        elif cur: cur[2 + cur[4]] += l
    full = []
    for r, d, p, n, _ in out:
        if "@C" in p + n + d or "@K" in d:
            for k in KINDS: full.append((r, d.replace("@K", k), re.sub(r"@C\b", k, p), re.sub(r"@C\b", k, n)))
        else: full.append((r, d, p, n))
    return full
def extractors(prop, tier): return run(prop, tier, lambda r: r == 'extractors')

def run(prop, tier, sel=None):
    viol, und = [], []
    cs = [c for c in cases() if not sel or sel(c[0])]
    modes = [("clang++", ["-std=c++17"])]
    posmodes = modes + [("clang++", ["-std=c++17", "-DBOOST_MULTI_INDEX_ENABLE_SAFE_MODE"]), ("g++", ["-std=c++17"])]
    if tier == "thorough":
        posmodes += [("clang++", ["-std=c++20"]), ("clang++", ["-std=c++17", "-DBOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"]), ("clang++", ["-std=c++17", "-DBOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING"])]
        modes += [("clang++", ["-std=c++17", "-DBOOST_MULTI_INDEX_ENABLE_SAFE_MODE"]), ("g++", ["-std=c++17"])]
    nassert = len(re.findall(r"static_assert\(", open(os.path.join(WIT, "pos.cpp")).read()))
    with Scratch() as d:
        pch = {}
        def mk(i):
            cc, fl = modes[i]
            if cc != "clang++": pch[i] = ["-include", os.path.join(WIT, "w.hpp")]; return
            o = os.path.join(d, "w%d.pch" % i)
            r = subprocess.run([cc] + fl + include_flags() + ["-Wno-everything", "-x", "c++-header", os.path.join(WIT, "w.hpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise AnalysisError("witness header does not compile against %s: %s" % (common.REPO, [l for l in r.stdout.splitlines() if "error" in l][:2]))
            pch[i] = ["-include-pch", o]
        parallel(mk, range(len(modes)))
        def compiles(i, code, tag):
            cc, fl = modes[i]
            f = os.path.join(d, tag + ".cpp"); open(f, "w").write(code)
            r = subprocess.run([cc] + fl + include_flags() + (["-Wno-everything"] if cc == "clang++" else ["-w"]) + pch[i] + ["-fsyntax-only", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.returncode == 0, [l for l in r.stdout.splitlines() if " error: " in l][:1]
        def job(j):
            if j[0] == "pos":
                cc, fl = j[1]
                r = subprocess.run([cc] + fl + include_flags() + ["-w", "-fsyntax-only", "-ferror-limit=0" if cc == "clang++" else "-fmax-errors=0", os.path.join(WIT, "pos.cpp")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                out = []
                if r.returncode:
                    seen = set()
                    for l in r.stdout.splitlines():
                        m = re.search(r"([^ :]+:\d+):\d+: error: (.*)", l)
                        if m:
                            msg = m.group(2); rule = re.sub(r".*static assertion failed[^:]*(?:due to requirement '.*')?: ", "", msg)
                            k = m.group(1).replace(WIT + "/", "")
                            if k not in seen:
                                seen.add(k); out.append({"rule": "type-obligation", "where": k, "function": "pos.cpp", "unit": " ".join([cc] + fl), "msg": rule[:200], "trail": []})
                return out
            i, k = j[1], j[2]; r, desc, p, n = cs[k]
            if j[0] == "twin":
                ok, e = compiles(i, p, "p%d_%d" % (i, k))
                return [] if ok else [{"rule": "well-formed use rejected: " + r, "where": "neg.txt: " + desc, "function": desc, "unit": " ".join(modes[i][1]), "msg": "the well-formed twin of '%s' does not compile: %s" % (desc, (e or ["?"])[0][-200:]), "trail": [p]}]
            ok, e = compiles(i, n, "n%d_%d" % (i, k))
            return [] if not ok else [{"rule": "ill-formed use accepted: " + r, "where": "neg.txt: " + desc, "function": desc, "unit": " ".join(modes[i][1]), "msg": "compiles although it must be rejected: " + desc, "trail": [n]}]
        jobs = [("pos", m) for m in posmodes if not sel] + [(t, i, k) for i in range(len(modes)) for k in range(len(cs)) for t in ("twin", "neg")]
        for o in parallel(job, jobs): viol += o
    cov = {"static_assertions": 0 if sel else nassert * len(posmodes), "ill_formed_programs": len(cs) * len(modes), "well_formed_twins": len(cs) * len(modes), "compiler_configurations": len(posmodes)}
    return viol, und, cov
