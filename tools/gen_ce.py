"""Random constraint-engine histories.  The generator tracks just enough (base domains, specified
values, deactivation counts) to request only operations the API allows in that state."""
from vt import Ep
NUMI = ("i", "r")
GROUPS = {"num": ("i", "r"), "numx": ("i", "r", "e"), "b": ("b",), "s": ("s",), "t": ("t",), "e": ("e",)}
# type -> list of alternatives; an alternative is a list of groups, "*G" = 1..3 more of group G
TYPES = {
    "eq": [["numx", "numx"], ["s", "s"], ["b", "b"], ["numx", "numx", "numx"], ["e", "e"], ["t", "t"], ["i_", "e"]],
    "neq": [["numx", "numx"], ["s", "s"], ["b", "b"], ["e", "e"], ["t", "t"]],
    "leq": [["num", "num"], ["num", "num"], ["b", "b"], ["e", "e"], ["num", "e"]],
    "lt": [["i_", "i_"], ["i_", "i_"], ["i_", "num"], ["b", "b"], ["e", "e"]],
    "addEq": [["num"] * 3],
    "multEq": [["num"] * 3], "mulEq": [["num"] * 3], "divEq": [["num"] * 3],
    "allDiff": [["e", "*e"], ["s", "*s"], ["i_", "*i_"], ["numx", "*numx"]],
    "absVal": [["num"] * 2], "neg": [["num"] * 2],
    "condEq": [["b", "num", "*num"], ["b", "s", "*s"], ["b", "e", "*e"]],
    "condAllDiff": [["b", "i_", "*i_"], ["b", "s", "*s"], ["b", "e", "*e"]],
    "countZeroes": [["i_", "*num"], ["i_", "*b"]], "countNonZeroes": [["i_", "*num"], ["i_", "*b"]],
    "eqMaximum": [["num", "num", "*num"]], "eqMinimum": [["num", "num", "*num"]],
    "max": [["num", "*num", "num"]], "min": [["num", "*num", "num"]],
    "allMax": [["num", "*num", "num"]], "allMin": [["num", "*num", "num"]],
    "eqSum": [["num", "num", "*num"]], "eqProduct": [["num", "num", "*num"]],
    "or": [["b", "*b"]],
    "testEq": [["b", "num", "num"], ["b", "s", "s"], ["b", "e", "e"]], "testNeq": [["b", "num", "num"], ["b", "s", "s"], ["b", "e", "e"]],
    "testLessThan": [["b", "i_", "i_"]], "testLeq": [["b", "i_", "i_"], ["b", "i_", "num"]],
    "testAnd": [["b"] * 3], "testOr": [["b"] * 3],
    "withinBounds": [["num"] * 3],
    "maxf": [["num"] * 3], "minf": [["num"] * 3], "abs": [["num"] * 2], "pow": [["num"] * 3], "mod": [["i_"] * 3],
    "floor": [["num"] * 2], "ceil": [["num"] * 2], "sqrt": [["num"] * 2],
    "diffSquare": [["r_"] * 3], "distanceSquares": [["r_"] * 3], "calcDistance": [["r_"] * 5],
}
GROUPS["i_"] = ("i",)
GROUPS["r_"] = ("r",)
DEACT = dict(deact=1, undeact=1.5, vdeact=0.6, vundeact=1)
BASIC = ["eq", "neq", "leq", "lt", "addEq", "eq", "leq", "lt", "addEq", "allDiff", "testEq", "condEq"]

SLOW = {"lt", "addEq", "neq", "testLessThan", "testLeq", "neg", "testNeq", "multEq", "mulEq", "divEq", "eqProduct", "eqSum", "diffSquare", "distanceSquares", "calcDistance", "pow"}
# with unbounded domains these converge too slowly when they form cycles

TOL = ["neq", "leq", "lt", "addEq", "leq", "lt", "testEq", "testLeq", "neg"]

class CEGen:
    def __init__(self, rng, opts="", types=None, nvars=(3, 6), ops=(8, 22), kinds="iiireebbs", width=4, weights=None,
                 inf=0.0, budget=900, open_ok=True, auto=0.3, dup=0.05):
        self.r, self.o = rng, opts
        self.types = types or list(TYPES)
        if inf > 0:
            self.types = [t for t in self.types if t not in SLOW] or ["leq"]
        self.nv, self.nops, self.kinds, self.width, self.inf, self.budget = nvars, ops, kinds, width, inf, budget
        self.open_ok, self.auto, self.dup = open_ok, auto, dup
        self.w = dict(post=6, delete=2, deact=0, undeact=0, vdeact=0, vundeact=0, spec=4, reset=3, close=1, open=0.3, touch=0.3,
                      insert=0.5, remove=0.4, restrict=1.2, derived=0.5, prop=4, var=0.5, delvar=0.4)
        if weights:
            self.w.update(weights)

    def num(self):
        return self.r.choice((-1, 0, 1)) if self.r.random() < .3 else self.r.randint(-3, 5)

    def newdom(self, k=None):
        r = self.r
        k = k or r.choice(self.kinds)
        if k in "ir":
            if r.random() < self.inf:
                lo = r.choice(["-inf", str(self.num())])
                hi = "inf" if lo == "-inf" or r.random() < 0.7 else str(int(lo) + 3)
                if lo == "-inf" and r.random() < 0.4:
                    hi = str(self.num())
                m = ("iv", None if lo == "-inf" else int(lo), None if hi == "inf" else int(hi))
                return k, m, False, "%s %s %s" % (k, lo, hi)
            lo = self.num(); hi = lo + r.randint(0 if r.random() < .15 else 1, self.width)
            if r.random() < .12:
                lo, hi = -hi if hi > 0 else lo, 0 if hi > 0 else hi      # zero as the upper end
            return k, ("iv", lo, hi), False, "%s %d %d" % (k, lo, hi)
        if k == "b":
            if r.random() < 0.1:
                v = r.randint(0, 1)
                return k, ("iv", v, v), False, "b %d %d" % (v, v)
            return k, ("iv", 0, 1), False, "b"
        lo = self.num() if k == "e" else 0
        pool = range(lo, lo + self.width + 2)
        vs = sorted(r.sample(list(pool), r.randint(1 if r.random() < .15 else 2, self.width)))
        op = self.open_ok and k != "e" and r.random() < 0.2
        return k, ("en", set(vs)), op, "%s%s %s" % ("o" if op else "", k, " ".join(map(str, vs)))

    def members(self, v):
        b = v["b"]
        if b[0] == "en":
            return sorted(b[1])
        lo = b[1] if b[1] is not None else (b[2] - 6 if b[2] is not None else -6)
        hi = b[2] if b[2] is not None else lo + 8
        return list(range(lo, min(hi, lo + 12) + 1))

    def sing(self, v):
        b = v["b"]
        return not v["open"] and (len(b[1]) == 1 if b[0] == "en" else (b[1] is not None and b[1] == b[2]))

    def size(self):
        p = 1
        for v in self.V.values():
            p *= max(1, min(13, len(self.members(v))))
        return p

    def addvar(self, k=None):
        for _ in range(20):
            k2, b, op, txt = self.newdom(k)
            if b[0] == "iv" and b[1] is not None and b[1] == b[2] and self.r.random() < 0.5:
                continue
            n = "x%d" % self.nvar
            v = dict(k=k2, b=b, open=op, sp=None, da=0)
            self.V[n] = v
            if self.size() > self.budget:
                del self.V[n]
                continue
            self.nvar += 1
            if self.sing(v):
                v["sp"] = self.members(v)[0]
            internal = self.r.random() < 0.05
            v["ui"] = internal
            self.L.append("%s %s %s" % ("ivar" if internal else "var", n, txt))
            return n
        return None

    def args(self, t):
        r = self.r
        alt = r.choice(TYPES[t])
        out = []
        for g in alt:
            cnt = 1
            if g[0] == "*":
                g, cnt = g[1:], r.randint(1, 3)
            for _ in range(cnt):
                c = [n for n, v in self.V.items() if v["k"] in GROUPS[g]]
                if not c:
                    return None
                fresh = [n for n in c if n not in out]
                if not fresh:
                    if r.random() < self.dup:
                        fresh = c
                    else:
                        return None
                out.append(r.choice(fresh))
        return out

    def post(self):
        for k in range(25):
            t = self.r.choice(self.types)
            a = self.args(t)
            if a is None:
                continue
            if k < 8 and any(v["da"] > 0 for v in self.V.values()) and self.w["vdeact"] and not any(self.V.get(x, {}).get("da") for x in a):
                continue       # favour variables that are deactivated
            cid = "c%d" % self.ncon
            self.ncon += 1
            self.C[cid] = dict(t=t, s=a, da=0)
            self.L.append("%s %s %s %s" % ("apost" if self.r.random() < self.auto else "post", cid, t, " ".join(a)))
            return True
        return False

    def scoped(self, n):
        return any(n in c["s"] for c in self.C.values())

    def step(self):
        r, V, C, L = self.r, self.V, self.C, self.L
        op = r.choices(list(self.w), list(self.w.values()))[0]
        if op == "post":
            if len(C) < 8:
                self.post()
        elif op == "delete":
            if C:
                c = r.choice(list(C)); del C[c]
                L.append("%s %s" % ("adelete" if r.random() < self.auto else "delete", c))
        elif op == "deact":
            if C:
                c = r.choice(list(C)); C[c]["da"] += 1; L.append("deact " + c)
        elif op == "undeact":
            cs = [c for c in C if C[c]["da"] > 0]
            if cs:
                c = r.choice(cs); C[c]["da"] -= 1; L.append("undeact " + c)
        elif op == "vdeact":
            ns = [n for n in V if V[n]["da"] > 0]
            n = r.choice(ns if ns and r.random() < .4 else list(V)); V[n]["da"] += 1; L.append("vdeact " + n)
        elif op == "vundeact":
            ns = [n for n in V if V[n]["da"] > 0]
            if ns:
                n = r.choice(ns); V[n]["da"] -= 1; L.append("vundeact " + n)
        elif op == "spec":
            ns = [n for n in V if V[n]["da"] == 0 and not V[n]["ui"] and not self.sing(V[n]) and V[n]["sp"] is None]
            if ns:
                n = r.choice(ns); x = r.choice(self.members(V[n])); V[n]["sp"] = x; L.append("spec %s %d" % (n, x))
        elif op == "reset":
            ns = [n for n in V if V[n]["sp"] is not None and not self.sing(V[n])]
            if ns:
                n = r.choice(ns); V[n]["sp"] = None; L.append("reset " + n)
        elif op == "close":
            ns = [n for n in V if V[n]["open"] and V[n]["da"] == 0]
            if ns:
                n = r.choice(ns); V[n]["open"] = False
                if self.sing(V[n]):
                    V[n]["sp"] = self.members(V[n])[0]
                L.append("close " + n)
        elif op == "open":
            ns = [n for n in V if not V[n]["open"] and V[n]["k"] in "st" and V[n]["da"] == 0 and (V[n]["sp"] is None or self.sing(V[n]))]
            if ns and self.open_ok:
                n = r.choice(ns)
                if self.sing(V[n]):
                    V[n]["sp"] = None
                V[n]["open"] = True
                L.append("open " + n)
        elif op == "touch":
            ns = [n for n in V if V[n]["da"] == 0]
            if ns:
                L.append("touch " + r.choice(ns))
        elif op == "insert":
            ns = [n for n in V if V[n]["open"]]
            if ns:
                n = r.choice(ns); x = r.randint(0, 9); V[n]["b"][1].add(x)
                if self.size() > 4 * self.budget:
                    V[n]["b"][1].discard(x)
                else:
                    L.append("insert %s %d" % (n, x))
        elif op == "remove":
            ns = [n for n in V if V[n]["b"][0] == "en" and not V[n]["open"] and len(V[n]["b"][1]) > 2 and V[n]["da"] == 0]
            if ns:
                n = r.choice(ns); xs = [x for x in V[n]["b"][1] if x != V[n]["sp"]]
                x = r.choice(xs); V[n]["b"][1].discard(x); L.append("remove %s %d" % (n, x))
        elif op == "restrict":
            ns = [n for n in V if V[n]["da"] == 0 and not self.sing(V[n]) and not V[n]["open"]]
            if ns:
                n = r.choice(ns); v = V[n]
                ms = self.members(v)
                if v["b"][0] == "iv":
                    if v["k"] == "b":
                        x = v["sp"] if v["sp"] is not None else r.randint(0, 1)
                        v["b"] = ("iv", x, x); txt = "b %d %d" % (x, x)
                    else:
                        lo = r.choice(ms); hi = r.choice([m for m in ms if m >= lo])
                        if v["sp"] is not None:
                            lo, hi = min(lo, v["sp"]), max(hi, v["sp"])
                        b = v["b"]
                        nlo = lo if b[1] is None else max(lo, b[1]); nhi = hi if b[2] is None else min(hi, b[2])
                        v["b"] = ("iv", nlo, nhi)
                        txt = "%s %d %d" % (v["k"], lo, hi)
                else:
                    keep = set(r.sample(ms, r.randint(1, len(ms))))
                    if v["sp"] is not None:
                        keep.add(v["sp"])
                    extra = set(r.sample(range(0, 12), 2))
                    v["b"] = ("en", (keep | extra) & v["b"][1])
                    txt = "%s %s" % (v["k"], " ".join(map(str, sorted(keep | extra))))
                if self.sing(v):
                    v["sp"] = self.members(v)[0]
                L.append("restrict %s %s" % (n, txt))
        elif op == "derived":
            L.append("derived " + r.choice(list(V)))
        elif op == "prop":
            L.append("prop")
        elif op == "var":
            if len(V) < self.nv[1] + 1:
                self.addvar()
        elif op == "delvar":
            ns = [n for n in V if not self.scoped(n)]
            if len(V) > 2 and ns:
                n = r.choice(ns); del V[n]; L.append("delvar " + n)

    def episode(self):
        self.V, self.C, self.L, self.nvar, self.ncon = {}, {}, [], 0, 0
        r = self.r
        n = r.randint(*self.nv)
        for _ in range(n):
            self.addvar()
        for _ in range(r.randint(1, 3)):
            self.post()
        for _ in range(r.randint(*self.nops)):
            self.step()
        self.L.append("prop")
        # undo everything in random order, propagating now and then
        und = [("reset", x) for x in self.V if self.V[x]["sp"] is not None and not self.sing(self.V[x])] + [("delete", c) for c in self.C]
        r.shuffle(und)
        for k, x in und[: r.randint(0, len(und))]:
            self.L.append("%s %s" % (k, x))
            if r.random() < 0.5:
                self.L.append("prop")
        self.L.append("prop")
        return Ep("ce " + self.o, self.L)

def typed(rng, t, opts, **kw):
    """An episode concentrating on one constraint type: few variables of the kinds it needs."""
    if t in SLOW:
        kw["inf"] = 0
    need = set()
    alt = rng.choice(TYPES[t])
    kinds = []
    for g in alt:
        c = 1
        if g[0] == "*":
            g, c = g[1:], rng.randint(1, 2)
        for _ in range(c):
            kinds.append(rng.choice(GROUPS[g]))
    kinds += [rng.choice(kinds)] if rng.random() < .4 else []
    types = [t] * 5 + ([rng.choice(["eq", "leq", "neq", "lt"])] if rng.random() < .6 else [])
    g = CEGen(rng, opts, types=types, kinds="".join(kinds), nvars=(len(kinds), len(kinds)), weights=dict(post=2, var=0, delvar=0), **kw)
    g.fixed = kinds
    orig = g.addvar
    seq = list(kinds)
    g.addvar = lambda k=None: orig(seq.pop(0) if seq else None)
    return g.episode()
