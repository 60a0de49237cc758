"""Domains of every kind: every pair over a set of shapes, and random sequences of operations."""
from vt import Ep
KINDS = ["int", "real", "bool", "num", "inum", "str", "sym"]
NUMK = KINDS[:5]
OPS2 = ["isect", "eq", "diff", "sub", "ints", "equal", "relax", "reset", "assign"]
SHAPES = {
 "int": ["4 4", "4 8", "0 12", "8 16", "-8 -4", "-inf 8", "8 inf", "-inf inf", "4 12"],
 "real": ["4 4", "5 5", "4 8", "5 11", "0 12", "9 11", "-inf 6", "6 inf", "-inf inf", "1 3"],
 "bool": ["0 4", "0 0", "4 4"],
 "num": ["c 4", "c 4 8 12", "c 4 12", "c 5 6", "c 5", "c", "o 4", "o", "c -8 0 4 8 9", "c 4 8", "c 0 16"],
 "inum": ["c 4", "c 4 8 12", "c 4 12", "c 0 16", "o 4 8", "c -8 4", "c 0 4", "c"],
 "str": ["c 4", "c 4 8 12", "c 4 12", "o 4 8", "o", "c", "c 0 16"], }
SHAPES["sym"] = SHAPES["str"]

def all_pairs():
    eps = []
    for ka in KINDS:
        for kb in (NUMK if ka in NUMK else [ka]):
            for a in SHAPES[ka]:
                for b in SHAPES[kb]:
                    L = []
                    for op in OPS2:
                        L += ["mk a %s %s" % (ka, a), "mk b %s %s" % (kb, b), op + " a b"]
                    eps.append(Ep("dom", L))
    for k in ("str", "sym", "int"):
        eps.append(Ep("dom", ["mk a %s %s" % (k, SHAPES[k][0]), "mk b %s" % {"str": "sym c 4", "sym": "num c 4", "int": "str c 4"}[k]] + [o + " a b" for o in OPS2]))
    for k in KINDS:
        for a in SHAPES[k]:
            L = []
            for v in ("-8", "-4", "0", "1", "3", "4", "5", "8", "9", "12", "16", "20"):
                if k in ("str", "sym") and (int(v) % 4 or int(v) < 0): continue
                for op in ("mem", "remove", "insert", "set"):
                    L += ["mk a %s %s" % (k, a), "%s a %s" % (op, v)]
            for op in ("empty a", "open a", "close a", "copy a b"):
                L += ["mk a %s %s" % (k, a), "mk b %s %s" % (k, a), op]
            L += ["mk a %s %s" % (k, a), "empty a", "relaxv a %s" % ("0" if k == "bool" else "4")]
            for lo, hi in ((0, 8), (5, 9), (5, 7), (-8, -4), ("-inf", 6), (6, "inf"), (4, 4), (5, 5)):
                L += ["mk a %s %s" % (k, a), "isectb a %s %s" % (lo, hi)]
            eps.append(Ep("dom", L))
    return eps

def value(r, k, near=None):
    if k == "bool": return r.choice((0, 4))
    if k in ("str", "sym"): return 4 * r.randint(0, 6)
    v = r.randint(-6, 8) * 4
    return v + r.randint(-3, 3) if k in ("real", "num") and r.random() < .5 else v
def make(r, n, k):
    if k == "bool": return "mk %s bool %s" % (n, r.choice(("0 4", "0 4", "0 0", "4 4")))
    if k in ("int", "real"):
        lo, hi = sorted((value(r, k), value(r, k)))
        big = r.random()
        if big < .04 and k == "int": lo, hi = sorted((4 * r.randint(-60000, 60000), 4 * r.randint(-60000, 60000)))
        return "mk %s %s %s %s" % (n, k, "-inf" if r.random() < .1 else lo, "inf" if r.random() < .1 else hi)
    vs = sorted({value(r, k) for _ in range(r.randint(0 if r.random() < .2 else 1, 6))})
    return "mk %s %s %s %s" % (n, k, "o" if r.random() < .25 else "c", " ".join(map(str, vs)))

def random_eps(r, n):
    eps = []
    for _ in range(n):
        fam = r.choice((NUMK, NUMK, NUMK, ["str"], ["sym"], ["int", "inum"], ["real", "num"]))
        names = ["d%d" % i for i in range(4)]; kinds, L = {}, []
        def mk(x, k=None):
            kinds[x] = k or r.choice(fam); L.append(make(r, x, kinds[x]).strip())
        for x in names: mk(x)
        for _ in range(r.choice((10, 25, 50))):
            a = r.choice(names); b = r.choice(names); op = r.choice(OPS2[:6] * 3 + OPS2 + ["mem", "remove", "insert", "set", "isectb", "isectb", "copy", "mk", "mk", "mk", "empty", "open", "close", "relaxv", "obs"])
            if op == "mk": mk(a)
            elif op == "copy":
                if a != b: L.append("copy %s %s" % (a, b)); kinds[b] = kinds[a]
            elif op in OPS2: L.append("%s %s %s" % (op, a, b))
            elif op == "obs": L.append("obs %s %s" % (a, b))
            elif op in ("empty", "open", "close"): L.append("%s %s" % (op, a))
            elif op == "isectb":
                lo, hi = sorted((value(r, "real"), value(r, "real"))); L.append("isectb %s %s %s" % (a, "-inf" if r.random() < .1 else lo, "inf" if r.random() < .1 else hi))
            else: L.append("%s %s %d" % (op, a, value(r, kinds[a])))
            # what a difference or removal leaves of a real interval ends off the grid; an emptied domain says little
            if kinds[a] == "real" and op in ("diff", "remove"): mk(a)
            elif op in ("empty", "isect", "eq", "diff") and r.random() < .4: mk(a)
        eps.append(Ep("dom", L))
    return eps
