"""Typestate analysis of the container operations (engine/miflow) over a family of container instantiations."""
import os
from common import *

NAMES = {"PK": ["ordered_unique", "ordered_non_unique", "ranked_unique", "ranked_non_unique", "hashed_unique", "hashed_non_unique", "sequenced", "random_access"],
         "REST": ["", "hashed_non_unique,sequenced,ordered_unique", "random_access,hashed_unique,ranked_non_unique",
                  "ranked_unique,hashed_unique,random_access,sequenced,ordered_non_unique,hashed_non_unique"]}
MEM = {"leak-element", "leak-object", "leak-memory", "leak-header", "double-release", "double-destroy", "double-construct",
       "release-undestroyed", "release-linked", "use-after-release", "header-released", "header-shared", "dangling-array",
       "released-copy", "inconsistent-element", "link-released", "unlink-released", "double-link", "double-unlink", "undo-without-unlink",
       "size-mismatch", "wrong-allocator", "bulk-without-reset"}
ALLPK = range(8)
def E(drv, rx, defs=(), q=(1,), t=(0, 1, 2, 3), pks=ALLPK, slow=0, thorough_only=False):
    """driver, regex of entry points, extra defines, companion index sets in the quick and thorough tiers, first-index kinds"""
    return dict(drv=drv, rx=rx, defs=tuple(defs), q=tuple(q), t=tuple(t), pks=tuple(pks), slow=slow, tonly=thorough_only)
def life(rx, q=(1, 2, 3), **k): return E("life", rx, q=q, **k)
def multi(rx, q=(1, 2), **k): return E("life3", rx, q=q, **k)
def whole(rx, **k): return E("life2", rx, **k)
MODULAR = {"life3", "life2", "field"}
FASTPK = (0, 1, 2, 3, 6)
def whole_all(**k): # moving element by element is split off: it is the expensive part
    return [whole("drv_(?!asgn__C__move|ctorm__C__moveal).*", **k), whole("drv_(asgn__C__move|ctorm__C__moveal)", pks=FASTPK, slow=1, **k),
            whole("drv_ctorm__C__moveal", pks=(4, 5, 7), slow=1, **k), whole("drv_asgn__C__move", pks=(4, 5, 7), slow=2, thorough_only=True, **k)]
def field(rx, altrs, pks=ALLPK, q=(2,), t=(1, 2, 3), **k):
    return [E("field", rx, defs=("-DTRIVF", "-DALTR=%d" % a), pks=pks, q=q, t=t, **k) for a in altrs]
EXC = {"exception-swallowed", "terminate-on-exception", "rethrown-other"}
# property -> entry points, rules (None: every rule of these entry points)
SEL = {
 "C01": ([life("drv_(ins|insh|insn|insnh|tra)__.*"), multi("drv_(insr|tra|trar|ins)__.*")], None),
 "C02": ([life("drv_(del|del1|ext|clr)__.*"), multi("drv_(delr|delp|clr)__.*")], None),
 "C03": ([life("drv_rep__.*")], None),
 "C04": ([life("drv_mod__.*")], None),
 "C05": ([life("drv_modrb__.*"), life("drv_modrb__.*", defs=("-DKENX",))], None),
 "C06": ([life("drv_.*", q=(1, 2)), multi("drv_.*", q=(1,))] + whole_all(), MEM),
 "C07": ([life("drv_(insn|insnh|ext)__.*"), whole("drv_nh__.*")] + [E("nha", "drv_nha__.*", defs=("-DALTR=%d" % a,), pks=p, q=(2,)) for a, p in ((0, ALLPK), (2, (0, 6)), (4, (0, 6)))], None),
 "C08": ([E("nha", "drv_nha__.*", defs=("-DALTR=%d" % a,), pks=(0, 4, 6, 7), q=(2,)) for a in (0, 2, 4)] + [life("drv_(ins|insn|ext|tra|del1|rep)__.*", q=(2,)), multi("drv_(tra|trar|delr)__.*", q=(2,))] + whole_all(defs=("-DALTR=0",))
         + [x for a in (1, 2, 4, 7, 15) for x in [whole("drv_(?!asgn__C__move|ctorm__C__moveal).*", defs=("-DALTR=%d" % a,), pks=(0, 5, 6, 7))]]
         + field("drv_f(swap|movec|copyc|copya)__.*", (0, 1, 4, 7), pks=(0, 6, 7)) + field("drv_f(swap|movec|copyc)__.*", (0, 4), pks=(5,)) + field("drv_fmovea__.*", (2,))
         + field("drv_fmovea__.*", (0,), pks=(0, 6), slow=1),
         {"wrong-allocator", "size-mismatch", "allocator-not-propagated", "allocator-lifetime", "handle-allocator", "transfer-unequal"}),
 "C09": (field("drv_f(swap|movec)__.*", (0, 4), q=(1, 2, 3)) + field("drv_fmovea__.*", (2,), q=(1, 2)) + field("drv_fmovea__.*", (0,), pks=FASTPK, slow=1) + field("drv_fmovea__.*", (0,), pks=(4, 5, 7), slow=2, thorough_only=True)
         + [whole("drv_(swap|ctorm)__.*", pks=FASTPK), whole("drv_asgn__C__move", pks=FASTPK, slow=1)], None),
 "C10": (field("drv_fcopy[ca]__.*", (0,), pks=(0, 2, 4, 6, 7)) + field("drv_fcopyc__.*", (0,), pks=(1, 3, 5)) + [whole("drv_(ctorc__.*|asgn__C__(copy|il))")], None),
 "C11": ([E("eff", "drv_p?nothr__.*", q=(0, 1, 2, 3)), E("eff", "drv_nothr__C__swap", defs=("-DNTF",), q=(1, 2, 3)), life("drv_(del|del1|ext|clr|noop|insn|insnh)__.*"), multi("drv_(delr|clr|noop|tra|trar)__.*")],
         {"nothrow-throws", "noop-throws", "erase-throws", "terminate-on-exception"}),
 "C12": ([E("eff", "drv_(pnothr|pure)__.*", q=(0, 1, 2, 3))], {"const-writes"}),
 "C14": ([life("drv_.*", defs=("-DSAFEIT",), q=(1, 2)), life("drv_clr__.*|drv_del1?__.*", defs=("-DSAFEIT",), q=(3,), t=(3,))]
         + [E("field", "drv_f(swap|movec)__.*|drv_fmovea__.*", defs=("-DTRIVF", "-DALTR=2", "-DSAFEIT"), q=(2, 3), t=(1, 2, 3)), whole("drv_asgn__C__(copy|il)", defs=("-DSAFEIT",), pks=FASTPK)],
         {"iterators-kept", "iterators-invalidated", "iterators-transferred", "iterators-unknown"}),
 "C15": ([E("lock", "drv_lock__.*", q=(1, 2)), E("lock", "drv_lock__.*", defs=("-DEVALASSERT",), q=(1, 2))],
         {"unlocked-access", "shared-write", "locked-twice", "lock-order", "lock-kept", "unlock-unheld", "calls-out-locked"}),
 "C21": ([life("drv_(noop|noopt|tra)__.*"), multi("drv_(noop|noopt|delp|trar|tra)__.*")], None),
 "C24": ([life("drv_.*", q=(1, 2)), multi("drv_.*", q=(1,)), whole("drv_(swap|nh|ctorm)__.*", pks=FASTPK), E("eff", "drv_nothr__.*")], {"element-copied", "element-assigned", "release-linked", "double-destroy", "rearrange-changes-elements"}),
 "C25": ([life("drv_.*", q=(1, 2)), multi("drv_.*", q=(1,))] + whole_all(), EXC),
}

def jobs_for(prop, tier):
    sel, rules = SEL[prop]
    out = []
    for e in sel:
        if e["tonly"] and tier == "quick": continue
        for pk in e["pks"]:
            for rest in e["q" if tier == "quick" else "t"]:
                out.append((e["drv"], pk, rest, ("-modular",) if e["drv"] in MODULAR else (), e["rx"], e["slow"], e["defs"]))
    out = sorted(set(out), key=lambda j: (-j[5], str(j)))
    return out, rules

def run(prop, tier):
    jobs, rules = jobs_for(prop, tier)
    build_engine()
    viol, und, stats = [], [], {"driver_units": 0, "entry_points": 0, "ir_instructions": 0, "abstract_states": 0, "normal_exits_checked": 0,
                                "exceptional_exits_checked": 0, "throw_points": 0, "event_sites": 0}
    with Scratch() as d:
        tus = sorted(set((j[0], j[1], j[2], j[6]) for j in jobs), key=str)
        bc = {}
        def comp(t):
            o = os.path.join(d, "%s_%d_%d%s.bc" % (t[0], t[1], t[2], "".join(t[3])))
            return t, compile_unit(os.path.join(ROOT, "drivers", t[0] + ".cpp"), ["-DPK=%d" % t[1], "-DREST=%d" % t[2]] + list(t[3]), o)
        def both(j):
            return j, run_miflow(bc[(j[0], j[1], j[2], j[6])], list(j[3]) + ["-f", j[4]], 700 if tier == "quick" else 3000)
        bc = dict(parallel(comp, tus))
        res = parallel(both, jobs)
    orders = {}
    for j, r in res:
        unit = "%s.cpp [%s; %s]" % (j[0], NAMES["PK"][j[1]], NAMES["REST"][j[2]])
        if r is None:
            und.append("%s %s: not analysed (time limit or unit rejected)" % (unit, j[4])); continue
        stats["driver_units"] += 1
        fs = [f for f in r["functions"]]
        for f in fs:
            stats["entry_points"] += 1
            stats["ir_instructions"] += f["instructions"]; stats["abstract_states"] += f["states"]
            stats["normal_exits_checked"] += f["exits_normal"]; stats["exceptional_exits_checked"] += f["exits_exc"]
            stats["throw_points"] += f["throw_points"]
            stats["event_sites"] += sum(f["events"].values())
            if f["error"]: und.append("%s %s: %s" % (unit, f["name"], f["error"]))
            elif f["exits_normal"] + f["exits_exc"] == 0 and not f["violations"]: und.append("%s %s: no exit reached" % (unit, f["name"]))
            if f.get("info", {}).get("order"): orders.setdefault(f["info"]["order"], "%s %s" % (unit, f["name"]))
            for v in f["violations"]:
                if rules is None or v["rule"] in rules:
                    viol.append(dict(v, unit=unit, function=f["name"]))
    if len(orders) > 1: viol.append(dict(rule="lock-order", where="; ".join(orders.values()), msg="two locks are taken in opposite address orders by different operations", trail=[], unit="", function=""))
    und += PROBLEMS
    if stats["entry_points"] == 0: raise AnalysisError("no entry point analysed: " + "; ".join(PROBLEMS)[:900])
    return viol, und, stats
