"""Resources: Q01 (timetable and grounded profiles), Q02 (violations and flaws), Q03 (flow profiles)."""
from suites import suite, Part, MC
from vt import Ep
import gen_res

def replay(lines):
    return [Ep("res", [x for x in l.split(";") if x] + ["obs"]) for l in lines]

def mc(name, what):
    return MC("ResMC", "ResMC_%s.cfg" % name, "ResMC_%s_t.cfg" % name, replay=replay, driver="drv_plan", judge="ResTrace", limit=3000,
              what="incremental %s profile: formulas against every schedule, every transition replayed" % what)

def eps(r, n, profs, **k):
    return [gen_res.ResGen(r, profs, **k).episode() for _ in range(n)]

SIMPLE, FLOW = ["TimetableProfile", "GroundedProfile"], ["FlowProfile", "IncrementalFlowProfile"]
NOLIM = dict(lim=0, cap=0)
LINK = dict(NOLIM, qc=5, delqc=2, qb=5)    # constraints between quantities too

@suite("Q01")
def s_q01(tier):
    n = 2400 if tier == "quick" else 40000
    return [mc("tt", "timetable"), mc("gr", "grounded")], [
        Part("histories", "drv_plan", "ResTrace", lambda r: eps(r, n, SIMPLE, roomy=.8, w=NOLIM)),
        Part("larger", "drv_plan", "ResTrace", lambda r: eps(r, n // 4, SIMPLE, ops=(35, 60), nmax=8, roomy=1, w=NOLIM, H=20)),
        Part("linked", "drv_plan", "ResTrace", lambda r: eps(r, n // 3, SIMPLE, roomy=.9, w=LINK)),
        Part("tolerant", "drv_plan", "ResTrace", lambda r: eps(r, n // 3, SIMPLE, tol=True))]

@suite("Q02")
def s_q02(tier):
    n = 1500 if tier == "quick" else 25000
    return [mc("tt", "timetable")], [
        Part("histories", "drv_plan", "ResTrace", lambda r: eps(r, n, SIMPLE + FLOW, roomy=.6)),
        Part("flaws", "drv_plan", "ResTrace", lambda r: eps(r, n // 2, SIMPLE + FLOW, roomy=1, nmax=6)),
        Part("linked", "drv_plan", "ResTrace", lambda r: eps(r, n // 2, SIMPLE + FLOW, roomy=.9, w=LINK)),
        Part("tolerant", "drv_plan", "ResTrace", lambda r: eps(r, n, SIMPLE + FLOW, tol=True))]

@suite("Q03")
def s_q03(tier):
    n = 2000 if tier == "quick" else 30000
    return [mc("fl", "flow (reservoir)"), mc("ru", "flow (reusable)")], [
        Part("histories", "drv_plan", "ResTrace", lambda r: eps(r, n, FLOW, roomy=.8, w=NOLIM)),
        Part("ordered", "drv_plan", "ResTrace", lambda r: eps(r, n // 2, FLOW, roomy=1, nmax=6, w=dict(NOLIM, con=12, delcon=5))),
        Part("linked", "drv_plan", "ResTrace", lambda r: eps(r, n // 2, FLOW, roomy=.9, w=LINK)),
        Part("tolerant", "drv_plan", "ResTrace", lambda r: eps(r, n // 3, FLOW, tol=True))]
