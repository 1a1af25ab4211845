"""Shape analysis (mishape) of the linked structures: trees, lists and bucket arrays."""
import os
from common import *
TREE = "link_left|link_right|extract|restore|increment|decrement".split("|")
# property -> list of (driver source, extra defs, entry regex)
SEL = {
 "C27": [("tree", f, n) for f in ([], ["-DRANK"], ["-DUNCOMP"], ["-DUNCOMP", "-DRANK"]) for n in TREE],
 "C18": [("tree", f, n) for f in (["-DRANK"], ["-DUNCOMP", "-DRANK"]) for n in TREE[:4] + ["nth", "rank"]],
}
HL = "link unlink undo after after_local next_to_inspect is_first_of_bucket last_of_range end_of_range append".split()
SEL["C26"] = ([("hlist", ["-DUNIQ"], n) for n in HL + ["unlink_last"]]
  + [("hlist", ["-DNU"], n) for n in HL[:-1] + "link_group link_range append_range unlink_last_group unlink_range".split()]
  + [("slist", [], "seq_" + n) for n in "link unlink relink relink_range swap increment decrement".split()])
RARR = "extract relocate transfer reverse gather_nulls increment decrement advance distance push_back erase clear room_for_one reserve shrink swap".split()
SEL["C26"] += [("rarr", [], n) for n in RARR] + [("sarr", [], "seq_reverse")]
SEL["C20"] = [("reh", ["-DPK=%d" % k], n) for k in (4, 5) for n in ("rehash", "reserve_for_insert")]
SEL["C23"] = ([("ser", [], n) for n in "save load_current load_version saver loader loader_twice constructed constructed_named forged_node forged_table".split()]
  + [("ser", ["-DCHAIN"], "chain%d_.*" % k) for k in (1, 2)] + [("ser", ["-DITER"], ".*"), ("ser", ["-DITER", "-DSAFEIT"], ".*")])
CPK = (0, 2, 4, 5, 6, 7)
SEL["C10"] = [("cpy", ["-DPK=%d" % k], n) for k in CPK for n in ("copy_structure", "ctor_.*")] + [("cpy", ["-DPK=%d" % k], "bucket_construct") for k in (4, 5)] + [("rarr", [], "construct")]
SEL["C27"] += [("cpy", ["-DPK=%d" % k], n) for k in (0, 2) for n in ("clear_structure", "ctor_.*")]
SEL["C26"] += [("cpy", ["-DPK=%d" % k], n) for k in CPK[2:] for n in ("clear_structure", "ctor_.*")] + [("cpy", ["-DPK=%d" % k], "bucket_.*") for k in (4, 5)] + [("rarr", [], "construct")]
SEL["C21"] = [("srt", [], "seq_sort"), ("srt", [], "seq_collate")]
ARRAYS = {"srt", "cpy", "rarr", "sarr", "reh", "ser"} # decided by miarr
def keep(prop, rule, fn):
    if prop == "C27": return rule != "subtree count"
    if prop == "C18": return rule in ("subtree count", "nth", "rank") or fn in ("drv_nth", "drv_rank")
    return True

def run(prop, tier):
    build_engine3()
    if any(x[0] in ARRAYS for x in SEL[prop]): build_engine4()
    viol, und = [], []
    st = {"driver_units": 0, "entry_points": 0, "ir_instructions": 0, "abstract_steps": 0, "initial_configurations": 0, "symbolic_heaps": 0, "paths": 0,
          "loop_invariant_heaps": 0, "folds": 0, "loops_closed": 0, "obligations_checked": 0}
    with Scratch() as d:
        tus = sorted(set((s, tuple(f)) for s, f, _ in SEL[prop]))
        def comp(t):
            o = os.path.join(d, "%s_%s.bc" % (t[0], "_".join(x.lstrip("-").replace("=", "") for x in t[1])))
            return t, compile_unit(os.path.join(ROOT, "drivers", t[0] + ".cpp"), list(t[1]), o)
        bc = dict(parallel(comp, tus))
        def one(j):
            return j, run_miflow(bc[(j[0], tuple(j[1]))], ["-t", "200" if tier == "quick" else "2000", "-f", "^drv_(" + j[2] + ")$"], 500 if tier == "quick" else 3000, MIARR if j[0] in ARRAYS else MISHAPE)
        res = parallel(one, SEL[prop])
    for j, r in res:
        unit = "%s.cpp [%s]" % (j[0], " ".join(j[1]))
        if r is None:
            und.append("%s %s: not analysed (time limit or unit rejected)" % (unit, j[2])); continue
        st["driver_units"] += 1
        for f in r["functions"]:
            st["entry_points"] += 1; st["ir_instructions"] += f["instructions"]; st["abstract_steps"] += f["steps"]; st["paths"] += f["paths"]
            st["initial_configurations"] += f["configurations"]; st["symbolic_heaps"] += f.get("states", 0); st["loop_invariant_heaps"] += f.get("loop_heaps", 0)
            st["folds"] += f.get("folds", 0); st["loops_closed"] += f.get("loops_closed", 0); st["obligations_checked"] += f["obligations"]
            if f["error"]: und.append("%s %s: %s" % (unit, f["name"], f["error"]))
            elif not f["configurations"]: und.append("%s %s: vacuous" % (unit, f["name"]))
            for x in f["unknown"]: und.append("%s %s: %s" % (unit, f["name"], x))
            for v in f["violations"]:
                if keep(prop, v["rule"], f["name"]): viol.append(dict(v, unit=unit, function=f["name"]))
    und += PROBLEMS
    if st["entry_points"] == 0: raise AnalysisError("no entry point analysed: " + "; ".join(PROBLEMS)[:900])
    return viol, und, st
