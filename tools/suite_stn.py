"""Temporal network: T01 (verdict and bounds), T02 (distance queries)."""
from suites import suite, Part, MC
from vt import Ep
import gen_stn

def replay(pts):
    return lambda lines: [Ep("stn", ["tp " + p for p in pts] + [x for x in l.split(";") if x] + ["obs", "nogood"]) for l in lines]

def mcs(tier):
    return [MC("STNMC", "STNMC_order.cfg", "STNMC_order_t.cfg", what="every order of single propagation steps between operations"),
            MC("STNMC", "STNMC_gen.cfg", "STNMC_gen_t.cfg", replay=replay("abc" if tier == "thorough" else "ab"), driver="drv_plan", judge="STNTrace",
               what="a path to every transition of the temporal network model, replayed")]

def default(r, n, **k):
    return [gen_stn.STNGen(r, **k).episode() for _ in range(n)]

@suite("T01")
def s_t01(tier):
    n = 3000 if tier == "quick" else 60000
    return mcs(tier), [Part("histories", "drv_plan", "STNTrace", lambda r: default(r, n)),
                       Part("larger", "drv_plan", "STNTrace", lambda r: default(r, n // 5, nmax=10, ops=(40, 80), bad=.1))]

@suite("T02")
def s_t02(tier):
    n = 3000 if tier == "quick" else 60000
    q = dict(dist=5, near=2, many=3, signs=3, lt=8, le=3, maybe=3, ref=1)
    return mcs(tier)[1:], [Part("queries", "drv_plan", "STNTrace", lambda r: default(r, n // 2, bad=.1, w=q)),
                           Part("mixed", "drv_plan", "STNTrace", lambda r: default(r, n // 3)),
                           Part("dense", "drv_plan", "STNTrace", lambda r: default(r, n // 4, nmax=9, ops=(40, 70), bad=.05, ref=False, w=dict(lt=25, con=20, tp=5, delc=1, narrow=1)))]
