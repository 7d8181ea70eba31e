#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo."""
import os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gbv
from gbv import NONE

FAMS = {"mxm": ["mxm"], "mv": ["mxv", "vxm"], "ew": ["eaddv", "emulv", "eaddm", "emulm"],
        "ext": ["extractv", "extractm", "extractcol"],
        "asn": ["assignv", "assignm", "assigncol", "assignrow", "assigncv", "assigncm"],
        "apply": ["applyv", "applym", "bind1v", "bind2v", "bind1m", "bind2m"],
        "misc": ["reducemv", "reducevs", "reducems", "transpose", "kron"]}
FAM_OF = {op: f for f, ops in FAMS.items() for op in ops}
CONT_V = ["vset", "vrem", "vget", "vhas", "vclear", "vresize", "vbuild", "vcopy", "vdense", "vctor", "veq", "vview"]
CONT_M = ["mset", "mrem", "mget", "mhas", "mclear", "mresize", "mbuild", "mcopy", "mctor", "meq", "mview"]
OPS = [o for f in FAMS.values() for o in f]
TS_ALL = ["T_I", "T_B", "T_U", "T_X1", "T_X2", "T_X3", "T_X4", "T_L"]
DOMS = ["i64", "i32", "f64", "bool", "u8", "i8", "i16"]

def w(ops, n=1): return {o: n for o in ops}
def units(fams, tss): return [("fam_cont", None)] + [("fam_" + f, t) for f in fams for t in tss]

MASKS = ["none", "val", "comp", "str", "scomp"]
FULL = dict(MKs=MASKS, ACCs=["no", "lin"], Zs=["merge", "replace"], TAs=[False, True], TBs=[False, True],
            MULs=["lin"], UNs=["inc", "zero"])
E1 = dict(EC=[NONE, 1], EA=[NONE, 2], EB=[NONE, 3], EM=[NONE, 0, 1])

def inst(*ds, **kw):
    d = {}
    for x in ds: d.update(x)
    d.update(kw)
    return d

NOSC = [o for o in OPS if o not in ("reducevs", "reducems")]
# entries per typeset: f64 values are carried times 16
TYE = {"T_X1": dict(EC=[NONE, 3], EA=[NONE, 8, -40], EB=[NONE, 3, -2], EM=[NONE, 0, 8]),
       "T_X2": dict(EC=[NONE, 40], EA=[NONE, -3], EB=[NONE, 24, -8], EM=[NONE, 0, -1]),
       "T_X3": dict(EC=[NONE, 1], EA=[NONE, 200], EB=[NONE, -3, 0], EM=[NONE, 0, 1]),
       "T_X4": dict(EC=[NONE, 300], EA=[NONE, -100, 7], EB=[NONE, 250], EM=[NONE, 0, 2])}

# The plan of each property: operation families and typesets compiled, weights
# of the operations generated, generator settings, exhaustive instances.
# quick instances are explored on every run; deep ones only in the thorough tier.
MM = ["mxm"]
PLAN = {
 "C01": dict(fams=[], ts=["T_I"], ops=w(CONT_M), prof=dict(doms=DOMS, len=40),
     graphs=[("MC_M", dict(Kind="M", MaxR=2, MaxC=2, Vals=[0, 1], BuildLen=2, Dups=["minus", "second"], Init0=0))],
     deep=[("MC_M3", dict(Kind="M", MaxR=3, MaxC=2, Vals=[0, 1], BuildLen=2, Dups=["minus"], Init0=0)),
           ("MC_M2b", dict(Kind="M", MaxR=2, MaxC=2, Vals=[0, 1], BuildLen=3, Dups=["minus", "second", "lin"], Init0=0))]),
 "C02": dict(fams=[], ts=["T_I"], ops=w(CONT_V), prof=dict(doms=DOMS, len=40),
     graphs=[("MC_V", dict(Kind="V", MaxR=3, MaxC=1, Vals=[0, 1], BuildLen=3, Dups=["minus", "second"], Init0=0))],
     deep=[("MC_V4", dict(Kind="V", MaxR=4, MaxC=1, Vals=[0, 1, 2], BuildLen=3, Dups=["minus"], Init0=0))]),
 "C03": dict(fams=list(FAMS), ts=["T_I", "T_B", "T_X1"], ops=w(OPS), prof=dict(nomask=8, noacc=40),
     inst=[("W1", inst(FULL, E1, Ops=[o for o in OPS if o not in ("reducevs", "reducems")]))],
     deepi=[("W2", inst(FULL, E1, Ops=["eaddv", "emulv", "applyv", "extractv", "assignv", "assigncv", "mxv", "vxm", "reducemv"],
                        DN=[2], DK=[1], DL=[1]))]),
 "C04": dict(fams=["mxm"], ts=TS_ALL, ops=w(MM), prof=dict(nomask=35),
     inst=[("P2", inst(E1, Ops=MM, DN=[1, 2], DK=[1, 2], DL=[1, 2], EC=[NONE], EM=[1], MULs=["lin"],
                       ADDs=["plus"], ACCs=["no"], TAs=[False, True], TBs=[False, True])),
           ("P2m", inst(FULL, E1, Ops=MM, DN=[1, 2], DK=[1], DL=[1]))],
     deepi=[("P2v", inst(E1, Ops=MM, DN=[2], DK=[2], DL=[2], EC=[NONE], EA=[NONE, 1, 2], EB=[NONE, 1, 3],
                         TAs=[False, True], TBs=[False, True], ADDs=["plus", "min"], MULs=["lin"])),
            ("P2c", inst(FULL, E1, Ops=MM, DN=[1], DK=[2], DL=[2]))]),
 "C05": dict(fams=["mv"], ts=TS_ALL, ops=w(FAMS["mv"]), prof=dict(nomask=35),
     inst=[("V2", inst(E1, Ops=FAMS["mv"], DN=[1, 2, 3], DK=[1, 2], EC=[NONE, 1], MULs=["lin"], ADDs=["plus", "min"],
                       ACCs=["no", "minus"], TAs=[False, True], TBs=[False, True])),
           ("V2m", inst(FULL, E1, Ops=FAMS["mv"], DN=[2], DK=[1]))],
     deepi=[("V3", inst(FULL, E1, Ops=FAMS["mv"], DN=[2], DK=[2])),
            ("V33", inst(E1, Ops=FAMS["mv"], DN=[3], DK=[3], MULs=["lin"], TAs=[False, True], TBs=[False, True], EC=[NONE]))]),
 "C06": dict(fams=["ew"], ts=TS_ALL, ops=w(FAMS["ew"]), prof=dict(nomask=35),
     inst=[("EV", inst(E1, Ops=["eaddv", "emulv"], DN=[1, 2, 3], MULs=["lin"], ACCs=["no", "minus"])),
           ("EM", inst(E1, Ops=["eaddm", "emulm"], DN=[1, 2], DK=[1, 2], EC=[NONE], MULs=["lin"],
                       TAs=[False, True], TBs=[False, True])),
           ("EMm", inst(FULL, E1, Ops=["eaddm", "emulm"], DN=[1], DK=[1]))],
     deepi=[("EM2", inst(FULL, E1, Ops=["eaddm", "emulm"], DN=[1, 2], DK=[1])),
            ("EM3", inst(E1, Ops=["eaddm", "emulm"], DN=[1], DK=[1, 2, 3, 4], EC=[NONE], MULs=["lin"], TBs=[False, True])),
            ("EVm", inst(FULL, E1, Ops=["eaddv", "emulv"], DN=[3]))]),
 "C07": dict(fams=["ext"], ts=TS_ALL, ops=w(FAMS["ext"]), prof=dict(nomask=35),
     inst=[("XV", inst(E1, Ops=["extractv", "extractcol"], DN=[1, 2, 3], DK=[1, 2], DL=[1], TAs=[False, True], EC=[NONE, 1])),
           ("XM", inst(E1, Ops=["extractm"], DN=[1, 2], DK=[1, 2], DL=[1, 2], EC=[NONE], TAs=[False, True])),
           ("XMm", inst(FULL, E1, Ops=FAMS["ext"], DN=[2], DK=[1], DL=[1]))],
     deepi=[("XV3", inst(FULL, E1, Ops=["extractv", "extractcol"], DN=[2], DK=[2], DL=[1, 2])),
            ("XM3", inst(E1, Ops=["extractm"], DN=[2], DK=[1, 2], DL=[3], EC=[NONE], TAs=[False, True]))]),
 "C08": dict(fams=["asn"], ts=TS_ALL, ops=w(FAMS["asn"]), prof=dict(nomask=35),
     inst=[("AV", inst(E1, Ops=["assignv", "assigncv"], DN=[1, 2, 3], DK=[1, 2, 3], ACCs=["no", "lin"],
                       MKs=["none", "val", "scomp"], Zs=["merge", "replace"], EM=[NONE, 1])),
           ("AM", inst(E1, Ops=["assignm", "assigncm"], DN=[1, 2], DK=[1, 2], DL=[1, 2], ACCs=["no", "lin"], TAs=[False, True])),
           ("AL", inst(FULL, E1, Ops=["assigncol", "assignrow"], DN=[2], DK=[1, 2], DL=[1], MKs=["none", "val", "scomp"], EM=[NONE, 1]))],
     deepi=[("AV3", inst(FULL, E1, Ops=["assignv", "assigncv"], DN=[3], DK=[1, 2, 3])),
            ("AM2", inst(FULL, E1, Ops=["assignm", "assigncm"], DN=[2], DK=[1], DL=[1])),
            ("AL2", inst(FULL, E1, Ops=["assigncol", "assignrow"], DN=[2], DK=[2], DL=[1, 2], MKs=["none", "val", "scomp"], EM=[NONE, 1]))]),
 "C09": dict(fams=["apply"], ts=TS_ALL, ops=w(FAMS["apply"]), prof=dict(nomask=35),
     inst=[("PV", inst(FULL, E1, Ops=["applyv", "bind1v", "bind2v"], DN=[1, 2], EA=[NONE, 0, 2])),
           ("PM", inst(E1, Ops=["applym", "bind1m", "bind2m"], DN=[1, 2], DK=[1, 2], TAs=[False, True], UNs=["inc", "zero"],
                       MULs=["lin"], ACCs=["no", "lin"], EA=[NONE, 0, 2]))],
     deepi=[("PM2", inst(FULL, E1, Ops=["applym", "bind1m", "bind2m"], DN=[2], DK=[1])),
            ("PV3", inst(FULL, E1, Ops=["applyv", "bind1v", "bind2v"], DN=[3]))]),
 "C10": dict(fams=["misc"], ts=TS_ALL, ops=w(["reducemv", "reducevs", "reducems"]), prof=dict(nomask=35),
     inst=[("R", inst(E1, Ops=["reducemv"], DN=[1, 2, 3], DK=[1, 2], ADDs=["plus", "min", "max"], ACCs=["no", "lin"],
                      TAs=[False, True], EA=[NONE, 0, 2])),
           ("Rm", inst(FULL, E1, Ops=["reducemv"], DN=[2], DK=[1, 2]))],
     deepi=[("R3", inst(FULL, E1, Ops=["reducemv"], DN=[3], DK=[1, 2]))]),
 "C11": dict(fams=["misc"], ts=TS_ALL, ops=w(["transpose", "kron"]), prof=dict(nomask=35),
     inst=[("T", inst(FULL, E1, Ops=["transpose"], DN=[1, 2], DK=[1])),
           ("K", inst(E1, Ops=["kron"], DN=[1, 2], DK=[1, 2], DL=[1, 2], EC=[NONE], MULs=["lin"], TAs=[False, True], TBs=[False, True])),
           ("Km", inst(FULL, E1, Ops=["kron"], DN=[1, 2], DK=[1], DL=[1]))],
     deepi=[("T2", inst(FULL, E1, Ops=["transpose"], DN=[2], DK=[2], MKs=["none", "val", "scomp"], EM=[NONE, 1])),
            ("T3", inst(E1, Ops=["transpose"], DN=[2, 3], DK=[3], EC=[NONE], TAs=[False, True]))]),
 "C12": dict(fams=list(FAMS), ts=["T_I", "T_X1"], ops=dict(w(OPS, 2), mview=6, vview=4), prof=dict(nomask=5, doms=DOMS),
     inst=[("VW", inst(FULL, E1, Ops=["mxm", "mxv", "vxm", "eaddm", "emulm", "kron", "applym", "transpose", "extractm", "reducemv"],
                       MKs=["comp", "str", "scomp"], ACCs=["no"], EM=[NONE, 0, 1], DN=[2], DK=[1], DL=[1]))],
     deepi=[("VW2", inst(FULL, E1, Ops=["mxv", "vxm", "eaddm", "emulm", "applym", "transpose", "reducemv"],
                         MKs=["comp", "str", "scomp"], ACCs=["no"], DN=[1, 2], DK=[2]))]),
 "C13": dict(fams=list(FAMS), ts=["T_I", "T_X1"], ops=dict(w(OPS, 2), **w(CONT_V + CONT_M, 1)), prof=dict(err=65, doms=["i32", "bool"], nomask=40),
     graphs=[("MC_V2", dict(Kind="V", MaxR=2, MaxC=1, Vals=[0, 1], BuildLen=1, Dups=["second"], Init0=0)),
             ("MC_M21", dict(Kind="M", MaxR=2, MaxC=1, Vals=[1], BuildLen=1, Dups=["second"], Init0=0))],
     inst=[("ED", inst(Ops=[o for o in OPS if o not in ("reducevs", "reducems")], EC=[1], EA=[2], EB=[3], EM=[1],
                       DN=[1, 2], DK=[1, 2], DL=[1], MKs=["none", "val", "scomp"], TAs=[False, True], TBs=[False, True], ErrDims=True))],
     deepi=[("ED2", inst(Ops=[o for o in OPS if o not in ("reducevs", "reducems")], EC=[NONE], EA=[2], EB=[3], EM=[1],
                       DN=[1, 2], DK=[1, 2], DL=[1, 2], MKs=["none", "comp", "str"], ACCs=["no", "lin"], Zs=["replace"],
                       TAs=[False, True], TBs=[False, True], ErrDims=True))]),
 "C14": dict(fams=list(FAMS), ts=["T_I", "T_B"], ops=w(OPS), prof=dict(alias=92, reuse=90, nomask=40, shared=60),
     inst=[("AL", inst(FULL, E1, Ops=[o for o in OPS if o not in ("reducevs", "reducems")],
                       Aliases=["oa", "ob", "ab", "oab", "om", "am"], EC=[NONE, 0, 1]))],
     deepi=[("AL2", inst(FULL, E1, Ops=["mxm", "eaddm", "emulm", "applym", "transpose", "extractm", "assignm"], DN=[2], DK=[2], DL=[2],
                         Aliases=["oab", "oa"], MKs=["none"], ACCs=["no", "lin"])),
            ("AL3", inst(FULL, E1, Ops=["mxm", "mxv", "vxm", "eaddv", "emulv", "eaddm", "emulm", "applyv", "bind1v", "assignv", "extractv"],
                         DN=[2], DK=[2], DL=[2], Aliases=["om", "am"], ACCs=["no"], EC=[NONE, 0, 1]))]),
 "C15": dict(fams=list(FAMS), ts=["T_I", "T_U"], ops=dict(w(OPS, 2), **w(CONT_V + CONT_M, 1)),
     prof=dict(reuse=95, len=60, hi=3, doms=["i32", "u8"]),
     inst=[("H", inst(FULL, E1, Ops=["mxm", "mxv", "eaddm", "emulv", "applym", "assignm", "extractm", "transpose"], DN=[1], DK=[2], DL=[1],
                      MKs=["none", "val"], ACCs=["no", "lin"]))]),
 "C17": dict(fams=list(FAMS), ts=["T_X1", "T_X2", "T_X3", "T_X4", "T_L"], ops=w(OPS), prof=dict(nomask=35, noacc=35),
     inst=[("Y" + t, inst(FULL, Ops=NOSC, MKs=["none", "val", "scomp"], TSN=t, **TYE[t])) for t in TYE],
     deepi=[("Z" + t, inst(FULL, Ops=NOSC, MKs=["none", "val"], TSN=t, DN=[2], DK=[1], DL=[1], Zs=["merge"], **TYE[t])) for t in TYE]),
 "C18": dict(fams=list(FAMS), ts=["T_I", "T_U", "T_X2"], ops=dict(w(OPS, 2), mxm=20, mset=1, mrem=1, mclear=1, mresize=1, mbuild=1,
                                                          vset=1, vrem=1, vresize=1, vbuild=1),
     prof=dict(doms=["i32", "u8"], alias=40, nomask=30), pair=True,
     inst=[("MX", inst(FULL, E1, Ops=MM, DN=[2], DK=[1], DL=[2], ACCs=["no", "lin"], MKs=["none", "val", "scomp"], Zs=["replace", "merge"], EC=[NONE, 1], EM=[NONE, 1]))]),
}

ASSUME = [
 "operator, accumulator and monoid functions used by the harness (harness/core.hpp: bin_fun, RtUn) are total, deterministic and, where the API asks for a monoid, associative and commutative",
 "values stay in ranges where the element type's arithmetic is exact (the specification wraps 8/16-bit results; no 32-bit overflow is generated)",
 "duplicate indices are generated for constant assign only; build is called on empty matrices",
]

def jobs(plan, seed, n, scripts, profs, base):
    out = []
    for k in range(n):
        prof = profs[k % len(profs)]
        for p in gbv.PLATFORMS: out.append((p, prof, seed, base + k * 1000, scripts))
    return out

def profiles(plan):
    b = dict(ops=plan["ops"], ts=plan["ts"], err=4, **{})
    b.update(plan["prof"])
    small = dict(b)
    big = dict(b, hi=9, len=max(10, b.get("len", 25) // 2))
    tiny = dict(b, hi=2)
    vec_only = all(o.endswith("v") and o not in ("reducemv",) or o in CONT_V for o in plan["ops"])
    wide = dict(b, dimset=[1, 3, 7, 8, 9, 17], len=8)
    long = dict(b, dimset=[1, 1, 2, 2, 3, 3, 4, 5, 31, 33, 64, 66], len=6 if not vec_only else 20)
    if plan["ops"].get("mxm", 0) * 2 > sum(plan["ops"].values()):      # n*n*n steps of the specification
        long["dimset"] = [1, 1, 2, 2, 3, 4, 31, 33]
    long["ops"] = {o: n for o, n in plan["ops"].items() if o != "kron"} or plan["ops"]
    huge = dict(long, dimset=[1, 2, 2, 3, 3, 5, 257, 1030, 4100], cells=4400, len=4 if not vec_only else 8)
    return small, big, tiny, wide, long, huge

def run_core(ck, tier):
    plan = PLAN[ck.prop]
    fams = plan["fams"]
    bins = gbv.build(units(fams, plan["ts"]))
    ck.lap("build")
    ck.notes["build_s"] = round(time.time() - ck.t0, 1)
    small, big, tiny, wide, long, huge = profiles(plan)
    ck.binding_demo(bins, small, ck.seed)
    for name, conf in plan.get("graphs", []): ck.explore(bins, name, conf, module="MCCont")
    for name, conf in plan.get("inst", []): ck.explore(bins, name, conf, cap=40000 if tier == "quick" else 200000)
    base = 0
    if tier == "quick":
        ck.record(bins, jobs(plan, ck.seed, 8, plan.get("scripts", 50), [small, small, tiny, big], base))
        ck.lap("record 1")
        ck.record(bins, jobs(plan, ck.seed, 4, 8, [wide, long], 500000))
        ck.lap("record 2")
        ck.record(bins, jobs(plan, ck.seed, 4, 8, [huge], 600000))
    else:
        for name, conf in plan.get("deep", []):
            if ck.left(600) > 60: ck.explore(bins, name, conf, module="MCCont")
        for name, conf in plan.get("deepi", []):
            if ck.left(600) > 60: ck.explore(bins, name, conf, cap=200000)
        rounds = 0
        while ck.left(600) > 0 and not ck.found:
            ck.record(bins, jobs(plan, ck.seed, 8, 100, [small, small, tiny, big], base))
            ck.record(bins, jobs(plan, ck.seed, 6, 12, [wide, long, huge], 500000 + base))
            base += 10000; rounds += 1
        ck.notes["generation_rounds"] = rounds
    if plan.get("pair"):
        ck.pair(bins, small, ck.seed, 6 if tier == "quick" else 40)
        import algcheck
        algcheck.pair(ck, 150 if tier == "quick" else 1000)
    ck.lap("rest")
    return ck.finish(assumptions=ASSUME)

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    ck = gbv.Check(prop, tier, seed)
    import algcheck
    try: return run_core(ck, tier) if prop in PLAN else algcheck.run(ck, tier)
    except gbv.Refused as e:
        ck.violation("refused", "calls of the public interface that the specification allows do not compile: %s" % e,
                     [dict(refused=str(e))], "both")
        return ck.finish(assumptions=ASSUME)

if __name__ == "__main__":
    try: sys.exit(main())
    except gbv.Broken as e:
        print("ERROR: %s" % e); sys.exit(2)
