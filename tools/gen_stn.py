"""Random temporal-network histories (integer bounds), including unsolvable ones."""
from vt import Ep

class STNGen:
    def __init__(self, rng, nmax=6, ops=(15, 45), tight=0.5, bad=0.3, ref=True, w=None):
        self.r, self.nmax, self.nops, self.tight, self.bad, self.useref = rng, nmax, ops, tight, bad, ref
        self.w = dict(tp=2, con=8, delc=4, narrow=3, deltp=.7, obs=6, reset=1.5, prop=.7, dist=3, near=.7, many=1.5, signs=1.5, lt=2, le=1, maybe=1,
                      edge0=.3, nogood=1, ref=.4 if ref else 0)
        if w:
            self.w.update(w)

    def bounds(self, f, t):
        """mostly compatible with a hidden schedule, so that networks grow large before they become unsolvable"""
        r = self.r
        d = self.h[t] - self.h[f]
        if r.random() < self.bad:
            d += r.randint(-4, 4)
        x = r.random()
        if x < .12:
            lo, hi = d, d
        elif x < .35:
            lo, hi = d - r.randint(0, 3), None
        elif x < .55:
            lo, hi = None, d + r.randint(0, 3)
        elif x < .6:
            lo, hi = None, None
        else:
            lo, hi = d - r.randint(0, 4), d + r.randint(0, 4)
        if r.random() < .25:
            lo = lo if lo is None else min(0, lo); hi = hi if hi is None else max(0, hi)
        return lo, hi

    def s(self, x, inf):
        return inf if x is None else str(x)

    def pair(self):
        a, b = self.r.sample(self.T, 2) if len(self.T) > 1 else ("o", "o")
        if self.r.random() < .25 and b != "o":
            a = "o"
        return (a, b) if a != b else None

    def step(self):
        r, L = self.r, self.L
        op = r.choices(list(self.w), list(self.w.values()))[0]
        if op == "tp":
            if len(self.T) < self.nmax:
                n = "t%d" % self.k; self.k += 1
                self.T.append(n); self.h[n] = r.randint(-4, 10); L.append("tp " + n)
        elif op == "con":
            p = self.pair()
            if p and len(self.C) < 14:
                if self.ref in p and (self.ref != p[0]):
                    p = (p[1], p[0])
                lo, hi = self.bounds(*p)
                if self.ref in p and not any(self.ref in k[:2] for k in self.C.values()):
                    self.rdir = r.choice(["in", "out"])
                if self.ref in p:          # a reference point is constrained in one direction only
                    lo, hi = (None, hi if hi is not None else 5) if self.rdir == "out" else (lo if lo is not None else -5, None)
                c = "c%d" % self.n; self.n += 1
                self.C[c] = (p[0], p[1], lo, hi)
                L.append("con %s %s %s %s %s" % (c, p[0], p[1], self.s(lo, "-inf"), self.s(hi, "inf")))
        elif op == "delc":
            if self.C:
                c = r.choice(list(self.C)); del self.C[c]; L.append("del " + c)
        elif op == "narrow":
            if self.C:
                c = r.choice(list(self.C)); f, t, lo, hi = self.C[c]
                if self.ref in (f, t):
                    return
                nlo, nhi = self.bounds(f, t)
                lo2 = nlo if lo is None else (lo if nlo is None else max(lo, nlo))
                hi2 = nhi if hi is None else (hi if nhi is None else min(hi, nhi))
                if lo2 is not None and hi2 is not None and lo2 > hi2:
                    return
                self.C[c] = (f, t, lo2, hi2)
                L.append("narrow %s %s %s" % (c, self.s(lo2, "-inf"), self.s(hi2, "inf")))
        elif op == "deltp":
            c = [t for t in self.T if t != "o" and t != self.ref]
            if c and len(self.T) > 3:
                t = r.choice(c)
                for k in [k for k in self.C if t in self.C[k][:2]]:
                    del self.C[k]; L.append("del " + k)
                self.T.remove(t); L.append("deltp " + t)
        elif op == "obs":
            L.append("obs")
            if r.random() < .4:
                L.append("reset")
        elif op == "ref":
            if self.ref:
                self.ref = None; L.append("ref -")
            else:
                c = [t for t in self.T if t != "o" and all(self.one(t, k) for k in self.C)]
                if c:
                    self.ref = r.choice(c)
                    ks = [k for k in self.C if self.ref in self.C[k][:2]]
                    self.rdir = self.one(self.ref, ks[0]) if ks else "out"
                    if any(self.one(self.ref, k) != self.rdir for k in ks):
                        self.ref = None; return
                    L.append("ref " + self.ref)
        elif op in ("prop", "nogood", "reset"):
            if op == "reset":
                L.append("obs")
            L.append(op)
        elif op == "edge0":
            L.append("edge0 " + r.choice(self.T))
        elif op in ("dist", "near"):
            p = self.pair()
            if p:
                L.append("%s %s %s" % (op, *p))
        elif op in ("many", "signs"):
            L.append("%s %s %s" % (op, r.choice(self.T), " ".join(r.sample(self.T, r.randint(1, len(self.T))))))
        elif op in ("lt", "le", "maybe"):
            p = self.pair()
            if p:
                L.append("%s %s %s %d" % (op, *p, self.h[p[1]] - self.h[p[0]] + r.randint(-4, 5)))

    def one(self, t, k):
        f, g, lo, hi = self.C[k]
        if t not in (f, g):
            return "none"
        if lo is not None and hi is not None:
            return ""
        if lo is None and hi is None:
            return ""
        out = (t == f) == (lo is None)
        return "out" if out else "in"

    def episode(self):
        self.T, self.C, self.L, self.k, self.n, self.h, self.ref, self.rdir = ["o"], {}, [], 0, 0, {"o": 0}, None, "out"
        for _ in range(self.r.randint(2, 4)):
            n = "t%d" % self.k; self.k += 1
            self.T.append(n); self.h[n] = self.r.randint(-4, 10); self.L.append("tp " + n)
        for _ in range(self.r.randint(*self.nops)):
            self.step()
        self.L.append("obs")
        for c in self.r.sample(list(self.C), self.r.randint(0, len(self.C))):
            self.L += ["del " + c, "obs"]
        return Ep("stn", self.L)
