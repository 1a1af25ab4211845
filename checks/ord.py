"""Relational analysis (miord) of product programs: a library operation followed by its specification."""
import os
from common import *
NAMES = {0: "ordered_unique", 1: "ordered_non_unique", 2: "ranked_unique", 3: "ranked_non_unique"}
LOOK = "lower_bound|upper_bound|equal_range|find|contains|count|xlower_bound|xupper_bound|xequal_range|xfind|xcontains|xcount|range_nn|range_un|range_nu|range_uu"
INS = "insert|insert_hint|insert_rv|insert_nh|insert_hint_nh|emplace|emplace_hint|replace|replace_rv|modify|modify_rb"
RANK = "nth|rank|find_rank|lower_bound_rank|upper_bound_rank|equal_range_rank|xfind_rank|xlower_bound_rank|xupper_bound_rank|xequal_range_rank|range_rank_nn|range_rank_un|range_rank_nu|range_rank_uu|count|xcount"
# property -> list of (driver source, extra defs, entry regex)
SEL = {
 "C16": [("ord", ["-DPK=%d" % k], n) for k in (0, 1, 2, 3) for n in LOOK.split("|")],
 "C17": [("ord", ["-DPK=%d" % k], n) for k in (0, 1, 2, 3) for n in INS.split("|") + (["insert_hint_exact", "insert_hint_close"] if k % 2 else [])],
 "C19": [("ck", [], n) for n in ("cmp_.*", "opd?_.*", "less_.*", "greater_.*", "eq_.*", "oeq_.*", "equal_to_.*", "hash_.*")],
 "C28": [("hsh", ["-DPK=%d" % k], n) for k in (4, 5) for n in (".*",)] + [("hsh", ["-DPK=4", "-DINPL"], "in_place")],
 "C20": [("hsh", ["-DPK=%d" % k], n) for k in (4, 5) for n in ("insert.*|emplace", "replace|modify.*")],
 "C18": [("ord", ["-DPK=%d" % k], n) for k in (2, 3) for n in RANK.split("|")],
 "C13": [("safe", ["-DPK=%d" % k], n) for k in range(8) for n in ("erase.*", "extract.*", "replace.*", "modify.*", "insert.*|emplace.*|rank.*|index.*", "merge.*", "splice_[a-h].*|splice__.*", "splice_i.*", "splice_r_f.*|splice_r_l.*", "splice_r_[^fl].*|splice_r__.*", "splice_s.*", "relocate_[^r].*|relocate__.*", "relocate_r.*", ".?.?project.*", "it_.*")] + [("saferng", ["-DPK=0"], "rng_.*")],
}

PUBLIC = {"C19"}  # drivers that use the documented interface only

def run(prop, tier):
    build_engine2()
    viol, und = [], []
    st = {"driver_units": 0, "entry_points": 0, "ir_instructions": 0, "abstract_steps": 0, "paths": 0, "loop_joins": 0, "loop_invariant_facts": 0,
          "obligations_checked": 0, "user_call_sites": 0}
    with Scratch() as d:
        tus = sorted(set((s, tuple(f)) for s, f, _ in SEL[prop]))
        def comp(t):
            o = os.path.join(d, "%s_%s.bc" % (t[0], "_".join(x.lstrip("-").replace("=", "") for x in t[1])))
            return t, compile_unit(os.path.join(ROOT, "drivers", t[0] + ".cpp"), list(t[1]), o)
        bc = dict(parallel(comp, tus))
        if prop in PUBLIC and None in bc.values():
            return [{"rule": "documented use rejected", "where": "drivers", "function": SEL[prop][0][0] + ".cpp", "unit": SEL[prop][0][0], "msg": "a documented use no longer compiles: " + PROBLEMS[0][:400], "trail": []}], und, st
        def one(j):
            return j, run_miflow(bc[(j[0], tuple(j[1]))], ["-f", "^drv_(" + j[2] + ")$"], 600 if tier == "quick" else 3000, MIORD)
        res = parallel(one, SEL[prop])
    for j, r in res:
        unit = "%s.cpp [%s]" % (j[0], " ".join(j[1]))
        if r is None:
            und.append("%s %s: not analysed (time limit or unit rejected)" % (unit, j[2])); continue
        st["driver_units"] += 1
        for f in r["functions"]:
            st["entry_points"] += 1; st["ir_instructions"] += f["instructions"]; st["abstract_steps"] += f["steps"]; st["paths"] += f["paths"]
            st["loop_joins"] += f["joins"]; st["loop_invariant_facts"] += f["loop_invariants"]; st["obligations_checked"] += f["obligations"]; st["user_call_sites"] += f["user_sites"]
            if prop == "C13" and not f["name"].endswith("__ok") and not f["obligations"]: und.append("%s %s: vacuous" % (unit, f["name"]))
            if f["error"]: und.append("%s %s: %s" % (unit, f["name"], f["error"]))
            for x in f["unknown"]: und.append("%s %s: %s" % (unit, f["name"], x))
            for v in f["violations"]: viol.append(dict(v, unit=unit, function=f["name"]))
    und += PROBLEMS
    if st["entry_points"] == 0: raise AnalysisError("no entry point analysed: " + "; ".join(PROBLEMS)[:900])
    return viol, und, st
