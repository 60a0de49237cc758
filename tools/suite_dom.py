"""Domains: C05."""
from suites import suite, Part, MC
from vt import Ep
import gen_dom

@suite("C05")
def s_c05(tier):
    n = 6000 if tier == "quick" else 200000
    return [MC("DomMC", "DomMC.cfg", "DomMC_t.cfg", replay=lambda lines: [Ep("dom", sum((l.split(";") for l in lines[i:i + 8]), [])) for i in range(0, len(lines), 8)],
               driver="drv_core", judge="DomTrace", what="the symbolic domain algebra against the sets it denotes, every pair; pairs replayed", limit=40000)], \
           [Part("every pair of shapes", "drv_core", "DomTrace", lambda r: gen_dom.all_pairs()),
            Part("sequences", "drv_core", "DomTrace", lambda r: gen_dom.random_eps(r, n))]
