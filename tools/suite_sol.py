"""The solver: S01 (verdicts), S02 (discipline of the search), S03 (flaws and their priority)."""
import json
from suites import suite, Part, MC
from vt import Ep
import gen_sol
from suite_pdb import prelude

CFG = dict(flt=[], mgrs=[dict(ty="var", flt=[], hs=[gen_sol.handler("Min")])])
def mc(name, dom, limit):
    def replay(lines):
        top = ["meta " + json.dumps(dict(cfg=CFG), separators=(",", ":"))] + ["var %s int 0 %d" % (v, dom) for v in "xyz"]
        out = []
        for l in dict.fromkeys(lines):
            ops = [("solver " + gen_sol.xml(CFG)) if x == "SOLVER" else x for x in l.split(";") if x]
            # the real solver decides in one order, so it may find its way to the end of it
            out.append(Ep("sol", top + ops + ["look"]))
        return out
    return MC("SolMC", "SolMC_%s.cfg" % name, "SolMC_%s_t.cfg" % name, replay=replay, driver="drv_plan", judge="SolTrace", limit=limit,
              what="search on small constraint problems, every order of decisions, with and without lookahead: verdicts, coverage, limits; user histories replayed")
SEARCH, EDIT = lambda n, t: mc("search", 2, n), lambda n, t: mc("edit", 1 if t == "quick" else 2, n)

def csp(r, n, **k):
    return [gen_sol.CSP(r, **k).episode() for _ in range(n)]
def plan(r, n, **k):
    return [gen_sol.Plan(r, **k).episode() for _ in range(n)]
def parts(tier, a, b):
    f = 1 if tier == "quick" else 12
    return [Part("constraints", "drv_plan", "SolTrace", lambda r: csp(r, a * f)), Part("plans", "drv_plan", "SolTrace", lambda r: plan(r, b * f))]

@suite("S01")
def s_s01(tier): return [SEARCH(4000, tier)], parts(tier, 3500, 1500) + [Part("hard", "drv_plan", "SolTrace", lambda r: csp(r, 1000 if tier == "quick" else 12000, cut=0, tight=True))]
# the known finding: a token that stays on a timeline after its neighbour left, without an ordering of its own
THR = dict(flt=[], mgrs=[dict(ty="thr", flt=[], hs=[gen_sol.handler("StandardThreatHandler")])])
def left():
    p = prelude(False, ["o0"])
    m = json.loads(p[0][5:]); m["cfg"] = THR
    return Ep("sol", ["meta " + json.dumps(m, separators=(",", ":")), p[1], "tok t1 T.P", "tok t2 T.P", "tok t3 T.P", "act t1", "act t2", "act t3", "prop", "before o0 t1 t1", "prop", "before o0 t1 t2", "prop", "cancelseq t1",
                      "solver " + gen_sol.xml(THR), "step", "sreset", "prop"])
@suite("S02")
def s_s02(tier): return [SEARCH(2500, tier), EDIT(2500, tier)], [Part("left", "drv_plan", "SolTrace", lambda r: [left()])] + parts(tier, 2500, 2000)
@suite("S03")
def s_s03(tier): return [EDIT(2500, tier)], parts(tier, 1500, 2500) + [Part("guards", "drv_plan", "SolTrace", lambda r: plan(r, 1500 if tier == "quick" else 18000, ops=(12, 30), guardy=True))]
