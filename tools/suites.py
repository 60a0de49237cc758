"""What each property's check explores: model-checking configurations, generated behaviours and the
trace specification that judges what the real code did with them."""
import random
import gen_ce
from vt import Ep

class Part:
    """episodes run through one driver and judged by one trace specification"""
    def __init__(self, name, driver, module, eps, rule=""):
        self.name, self.driver, self.module, self.eps, self.rule = name, driver, module, eps, rule

class MC:
    """a TLC model-checking run; replay turns the lines it prints into episodes of a Part"""
    def __init__(self, module, cfg, thorough_cfg=None, replay=None, driver=None, judge=None, what="", limit=8000):
        self.limit = limit
        self.module, self.cfg, self.tcfg, self.replay, self.driver, self.judge, self.what = module, cfg, thorough_cfg, replay, driver, judge, what

SUITES = {}
def suite(*props):
    def deco(f):
        for p in props:
            SUITES[p] = f
        return f
    return deco

# ------------------------------------------------------------------ constraint engine
def ce_replay(prelude, opts):
    def f(lines):
        return [Ep("ce " + opts, prelude + [x for x in l.split(";") if x] + ["prop"]) for l in lines]
    return f

CE2 = ["var x0 i 0 2", "var x1 i 0 2"]
CE3 = CE2 + ["var x2 b"]
CE_MC = [MC("CEMC", "CEMC_order.cfg", "CEMC_order_t.cfg", what="every interleaving of operations and single propagator executions"),
         MC("CEMC", "CEMC_gen.cfg", "CEMC_gen_t.cfg", replay=ce_replay(CE3, "fresh listen"), driver="drv_core", judge="CETrace",
            what="a path to every transition of the constraint-engine model, replayed")]

def ce_mixed(rng, n, opts="fresh listen", deact=0.15):
    eps = [gen_ce.CEGen(rng, opts, types=gen_ce.BASIC, weights=gen_ce.DEACT if rng.random() < deact else None).episode() for _ in range(n // 3)]
    for t in gen_ce.TYPES:
        eps += [gen_ce.typed(rng, t, opts, inf=0.25 if k % 4 == 0 else 0) for k in range(max(2, n // 130))]
    eps += [gen_ce.CEGen(rng, opts, weights=gen_ce.DEACT if rng.random() < deact else None, inf=.1 if k % 5 == 0 else 0).episode() for k in range(n // 3)]
    return eps

def ce_typed(rng, n, opts="fresh listen"):
    eps = []
    for t in gen_ce.TYPES:
        eps += [gen_ce.typed(rng, t, opts, inf=0.25 if k % 4 == 0 else 0) for k in range(max(2, n // len(gen_ce.TYPES)))]
    return eps

def ce_tol(rng, n):
    return [gen_ce.CEGen(rng, "tolerant listen", types=gen_ce.TOL, kinds="iiieeb" if k % 2 else "iiieebbs", dup=0, open_ok=False,
                         weights=dict(prop=9) if k % 3 else None).episode() for k in range(n)]

@suite("C01", "C02")
def s_c01(tier):
    n = 3200 if tier == "quick" else 60000
    return CE_MC, [Part("types", "drv_core", "CETrace", lambda r: ce_typed(r, n // 2)),
                   Part("mixed", "drv_core", "CETrace", lambda r: ce_mixed(r, n // 2))]
@suite("C03")
def s_c03(tier):
    n = 4000 if tier == "quick" else 60000
    hist = dict(delete=4, reset=5, spec=5, post=6, prop=5)
    return CE_MC, [Part("histories", "drv_core", "CETrace", lambda r: [gen_ce.CEGen(r, "fresh", types=gen_ce.BASIC if k % 2 else None, weights=hist, ops=(14, 34)).episode() for k in range(n // 2)]),
                   Part("bounds", "drv_core", "CETrace", lambda r: [gen_ce.CEGen(r, "fresh", types=["neq", "lt", "leq", "neq", "addEq", "eq", "condEq", "allDiff"], kinds="iiiiib", width=5, nvars=(3, 5), weights=dict(hist, open=0, close=0), ops=(16, 40)).episode() for k in range(n // 3)]),
                   Part("mixed", "drv_core", "CETrace", lambda r: ce_mixed(r, n // 2))]
@suite("C04")
def s_c04(tier):
    n = 4000 if tier == "quick" else 60000
    w = dict(spec=6, reset=4, close=3, open=2, touch=1, insert=3, remove=2, restrict=4, post=3, var=1, delvar=1, deact=.6, undeact=1, vdeact=.8, vundeact=1.2)
    return CE_MC[1:], [Part("variables", "drv_core", "CETrace", lambda r: [gen_ce.CEGen(r, "fresh", weights=w, kinds="iirebbsst", types=gen_ce.BASIC if k % 2 else None).episode() for k in range(n // 2)]),
                       Part("deactivations", "drv_core", "CETrace", lambda r: [gen_ce.CEGen(r, "fresh", weights=dict(post=6, delete=1, deact=1.5, undeact=2, vdeact=5, vundeact=6, prop=4), types=gen_ce.BASIC, ops=(18, 40)).episode() for k in range(n // 6)]),
                       Part("mixed", "drv_core", "CETrace", lambda r: ce_mixed(r, n // 3, deact=.4))]
@suite("C06")
def s_c06(tier):
    n = 4000 if tier == "quick" else 60000
    return CE_MC[1:], [Part("notifications", "drv_core", "CETrace", lambda r: ce_mixed(r, n * 3 // 4, opts="listen", deact=.4)),
                       Part("tolerant", "drv_core", "CETrace", lambda r: ce_tol(r, n // 4))]
@suite("C07")
def s_c07(tier):
    n = 6000 if tier == "quick" else 80000
    tolmc = [MC("CEMC", "CEMC_gen.cfg", "CEMC_gen_t.cfg", replay=ce_replay(CE3, "tolerant listen"), driver="drv_core", judge="CETrace",
                what="a path to every transition of the constraint-engine model, replayed with violations tolerated")]
    return tolmc, [Part("tolerant", "drv_core", "CETrace", lambda r: ce_tol(r, n))]
