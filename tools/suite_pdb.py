"""The plan database: T03 (time variables, temporal advisor), P01 (life cycle), P02 (merging), P03 (timelines),
P04 (merge candidates), P06 (deletion and dependants)."""
import json
from suites import suite, Part, MC
from vt import Ep
import gen_pdb

META = dict(ext={"T": ""}, tl=["T"], ob={})
def prelude(rules, obs):
    par = {"x": dict(k="n", lo=0, hi=20)}
    sub = [dict(p="T.Q", cs=[["concurrent", "m", "end", "s", "start"]])] if rules else []
    m = dict(ext={"T": ""}, tl=["T"], ob={o: "T" for o in obs}, pred={"T.P": dict(ty="T", nm="P", par=par, sub=sub), "T.Q": dict(ty="T", nm="Q", par=par, sub=[])})
    t = "typedef int [0 20] rng; class T extends Timeline { predicate P { rng x; } predicate Q { rng x; } }" + (" T::P { meets(T.Q g0); }" if rules else "") \
        + " " + " ".join("T %s = new T();" % o for o in obs) + " close();"
    return ["meta " + json.dumps(m, separators=(",", ":")), "nddl " + t, "tok t1 T.P rej", "tok t2 T.P", "tok t3 T.Q"]
def replay(rules, obs, tail=()):
    p = prelude(rules, obs)
    return lambda lines: [Ep("plan", p + [x for x in l.split(";") if x] + ["obs"] + list(tail)) for l in lines]
ASK = ["compat t1 - 1", "compat t2 - 0", "choices t1 -", "choices t2 -", "adv prec t1 t2", "adv dist t1 end t2 start"]
def life(tier, limit):
    return MC("PDBMC", "PDBMC_life.cfg", "PDBMC_life_t.cfg", replay=replay(True, ["o0"], ASK), driver="drv_plan", judge="PDBTrace", limit=limit,
              what="life cycle, merging, subgoals, deletion: every history of the small model; paths to its transitions replayed")
def line(tier, limit):
    return MC("PDBMC", "PDBMC_line.cfg", "PDBMC_line_t.cfg", replay=replay(False, ["o0", "o1"] if tier == "thorough" else ["o0"], ASK), driver="drv_plan", judge="PDBTrace", limit=limit,
              what="ordering and freeing tokens on a timeline: every history of the small model; paths to its transitions replayed")

def chain(tier, limit):
    p = prelude(False, ["o0"])[:2] + ["tok t%d T.P" % k for k in (1, 2, 3, 4)] + ["act t%d" % k for k in (1, 2, 3, 4)]
    return MC("PDBMC", "PDBMC_chain.cfg", "PDBMC_chain_t.cfg", replay=lambda lines: [Ep("plan", p + [x for x in l.split(";") if x] + ["obs"] + ["choices t%d -" % k for k in (1, 2, 3, 4)]) for l in lines],
              driver="drv_plan", judge="PDBTrace", limit=limit, what="four tokens ordered and freed in every way; paths to the model's transitions replayed")

W = dict(slaves=dict(rules=1, w=dict(act=9, mrg=9, cancel=6, deltok=3, con=2, restr=1, spec=2, before=3, tok=3, choices=1, adv=1)),
         lines=dict(w=dict(before=14, free=5, cancel=5, deltok=2, act=4, mrg=2, choices=6, con=2, chain=4)),
         time=dict(w=dict(con=10, delcon=5, restr=5, reset=4, spec=5, adv=6, mrg=2, cancel=2)),
         merge=dict(w=dict(mrg=12, compat=5, cancel=5, spec=6, reset=4, restr=5, con=6, delcon=3, before=3, free=1, choices=1, adv=1)),
         crowd=dict(max_tok=6, w=dict(crowd=6, mrg=3, con=3, restr=4, compat=4)),
         all=dict())
def eps(r, variant, n):
    return [gen_pdb.PDBGen(r, ops=(15, 45), **W[variant]).episode() for _ in range(n)]
def parts(tier, *pv):
    return [Part(v, "drv_plan", "PDBTrace", lambda r, v=v, n=n: eps(r, v, n if tier == "quick" else n * 15)) for v, n in pv]

@suite("T03")
def s_t03(tier): return [line(tier, 3000)], parts(tier, ("time", 4000), ("merge", 1500), ("lines", 1500))
@suite("P01")
def s_p01(tier): return [life(tier, 5000)], parts(tier, ("slaves", 3500), ("all", 2500))
# the known finding: two tokens whose like variables are temporally related are merged
TIED = [Ep("plan", prelude(False, ["o0"]) + ["act t1", "con c %s t1 start t2 start" % c, "obs", "compat t2 - 0", "mrgtied t2 t1", "obs"]) for c in ("precedes", "concurrent")]
@suite("P02")
def s_p02(tier): return [life(tier, 4000)], [Part("tied", "drv_plan", "PDBTrace", lambda r: TIED)] + parts(tier, ("merge", 4500), ("slaves", 1500))
@suite("P03")
def s_p03(tier): return [line(tier, 2000), chain(tier, 8000)], parts(tier, ("lines", 3000))
@suite("P04")
def s_p04(tier): return [life(tier, 3000)], parts(tier, ("crowd", 3500), ("merge", 2500))
@suite("P06")
def s_p06(tier): return [life(tier, 6000)], parts(tier, ("slaves", 4500), ("all", 1500))
