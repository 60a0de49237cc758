"""Operand pairs for the extended numbers: everything over a set of boundary values, and random ones."""
import itertools
from vt import Ep
B = {"e": ["0:%d" % d for d in (-7, -2, -1, 0, 1, 2, 3, 10)] + ["1:0", "-1:0", "1:-1", "-1:1", "1:-5", "-1:5"],
     "i": ["0:%d" % d for d in (-7, -2, -1, 0, 1, 2, 3, 10)],
     "u": ["0:0", "0:1", "0:2", "0:9", "1:0", "1:-1", "1:-2"],
     "f": ["0:%d" % d for d in (-30, -8, -5, -4, -1, 0, 1, 2, 4, 6, 8, 40)] + ["1:0", "-1:0", "1:-4", "-1:4", "1:-20", "-1:20"]}
B["l"], B["D"] = B["e"], B["f"]
BIN = ["ei", "eu", "el", "ee", "le", "ef", "eD", "ff", "Df"]
CMP = ["ee", "ei", "el", "ef", "eD", "ie", "le", "De", "ff", "fD", "Df", "fi", "fl", "if", "lf"]

def lines():
    L = ["lim"]
    for k in BIN:
        for f in "+-*/" + ("%" if k in ("el", "ee", "le") else ""):
            for x, y in itertools.product(B[k[0]], B[k[1]]):
                if f == "%" and y == "0:0":
                    continue
                L.append("bin %s %s %s %s %s" % (k[0], k[1], f, x, y))
    for k in CMP:
        L += ["cmp %s %s x %s %s" % (k[0], k[1], x, y) for x, y in itertools.product(B[k[0]], B[k[1]])]
    for k in ("e", "f"):
        for f in ("+=", "-=", "*=", "/="):
            L += ["set %s %s %s %s %s" % (k, k, f, x, y) for x, y in itertools.product(B[k], B[k])]
        for f in ("neg", "pos", "inc", "dec", "pinc", "pdec", "not"):
            L += ["un %s %s %s" % (k, f, x) for x in B[k]]
    for f in "flDibs":
        L += ["conv e %s %s" % (f, x) for x in B["e"]]
    for f in ("e", "l", "i", "D", "b", "floor", "ceil", "abs"):
        L += ["conv f %s %s" % (f, x) for x in B["f"]]
    L += ["mm f x %s %s" % (x, y) for x, y in itertools.product(B["f"], B["f"])]
    return L

def all_pairs():
    L = lines()
    return [Ep("num", L[i:i + 60]) for i in range(0, len(L), 60)]

def num(r, k):
    if k == "u":
        return "0:%d" % r.randint(0, 150) if r.random() < .7 else "1:%d" % -r.randint(0, 40)
    if k == "i" or r.random() < .65:
        return "0:%d" % r.choice([r.randint(-150, 150), r.randint(-9, 9), r.randint(-2, 2)])
    s = r.choice([1, -1])
    return "%d:%d" % (s, -s * r.choice([0, 0, 1, 2, r.randint(0, 60)]) * (4 if k in "fD" else 1))

def random_pairs(r, n):
    eps = []
    for _ in range(n):
        L = []
        for _ in range(50):
            x = r.random()
            if x < .55:
                k = r.choice(BIN); f = r.choice("+-*/" + ("%" if k in ("el", "ee", "le") else ""))
                a, b = num(r, k[0]), num(r, k[1])
                if f != "%" or b != "0:0":
                    L.append("bin %s %s %s %s %s" % (k[0], k[1], f, a, b))
            elif x < .8:
                k = r.choice(CMP); L.append("cmp %s %s x %s %s" % (k[0], k[1], num(r, k[0]), num(r, k[1])))
            elif x < .88:
                k = r.choice("ef"); L.append("set %s %s %s %s %s" % (k, k, r.choice(("+=", "-=", "*=", "/=")), num(r, k), num(r, k)))
            elif x < .94:
                k = r.choice("ef"); L.append("un %s %s %s" % (k, r.choice(("neg", "pos", "inc", "dec", "pinc", "pdec", "not")), num(r, k)))
            else:
                L.append("conv f %s %s" % (r.choice(("e", "l", "i", "D", "b", "floor", "ceil", "abs")), num(r, "f")) if x < .97 else "conv e %s %s" % (r.choice("flDibs"), num(r, "e")))
        eps.append(Ep("num", L))
    return eps
