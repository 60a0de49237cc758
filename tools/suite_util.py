"""Utilities: U01 (extended numbers)."""
from suites import suite, Part, MC
import gen_num, gen_ent
from vt import Ep

@suite("U01")
def s_u01(tier):
    n = 1200 if tier == "quick" else 60000
    return [MC("NumMC", "NumMC.cfg", "NumMC_t.cfg", what="the laws of the number model over every triple of boundary values")], \
           [Part("every boundary pair", "drv_core", "NumTrace", lambda r: gen_num.all_pairs()),
            Part("random pairs", "drv_core", "NumTrace", lambda r: gen_num.random_pairs(r, n))]

@suite("U02")
def s_u02(tier):
    n = 800 if tier == "quick" else 30000
    return [MC("EntMC", "EntMC.cfg", "EntMC_t.cfg", replay=lambda lines: [Ep("ent 1", [x for x in l.split(";") if x] + ["ext"] * 3) for l in lines],
               driver="drv_core", judge="EntTrace", what="every short history of entities, handles and queue updates, replayed")], \
           [Part("histories", "drv_core", "EntTrace", lambda r: gen_ent.random_eps(r, n))]
