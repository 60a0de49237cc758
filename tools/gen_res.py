"""Random histories on resources: tokens with time windows and quantities, temporal constraints, limits."""
from vt import Ep

DETS = ["ClosedWorldFVDetector", "OpenWorldFVDetector"]
class ResGen:
    def __init__(self, r, profs, ops=(12, 35), nmax=5, tol=False, roomy=0.5, w=None, res=None, H=12):
        self.r, self.profs, self.nops, self.nmax, self.tol, self.roomy, self.H = r, profs, ops, nmax, tol, roomy, H
        self.nres = res
        self.w = dict(tok=8, act=6, cancel=3, delt=2, obj=3, reso=1.5, qb=3, qs=3, qr=2, ts=4, tr=3, tb=4, con=6, delcon=3, obs=7, lim=.6, cap=.6, qc=0, delqc=0)
        if w:
            self.w.update(w)

    def amt(self, lo, hi, inf=.3):
        return "inf" if self.r.random() < inf else str(self.r.randint(lo, hi))

    def win(self, lo, hi, wide=.5):
        r = self.r
        a, b = sorted((r.randint(lo, hi), r.randint(lo, hi)))
        if r.random() < .2:
            b = a
        return a, b

    def may(self, *cs):
        """Adds the time constraints (x, y, lo, hi: lo <= y - x <= hi) if they can be met together with the ones
        given so far.  In tolerant mode only solvable histories are asked for (always true otherwise)."""
        if not self.tol:
            return True
        all_ = self.tc + list(cs)
        d = {}
        for x, y, lo, hi in all_:
            d[x] = d[y] = 0
        for i in range(len(d) + 1):
            ch = False
            for x, y, lo, hi in all_:
                if d[x] + hi < d[y]: d[y] = d[x] + hi; ch = True
                if d[y] - lo < d[x]: d[x] = d[y] - lo; ch = True
            if not ch:
                self.tc = all_
                return True
        return False

    def episode(self):
        r = self.r
        L, T, R, C, QC = [], {}, {}, [], []
        self.tc = []
        for i in range(self.nres or r.choice([1, 1, 1, 2])):
            kind = r.choice(["rv", "ru"]) if i == 0 or r.random() < .6 else R["r0"]
            prof = r.choice(self.profs)
            det = "GroundedFVDetector" if prof == "GroundedProfile" and r.random() < .7 else r.choice(DETS) if prof != "GroundedProfile" else "ClosedWorldFVDetector"
            if r.random() < self.roomy:      # nothing is ever violated, flaws may be
                c = r.randint(0, 8); cl, cu = c - r.choice([0, 0, 1]), c
                lo, up = -20 + r.randint(0, 18), 25 - r.randint(0, 18)
            else:
                c = r.randint(2, 9); cl, cu = c - r.choice([0, 0, 2]), c
                lo, up = r.randint(-2, 2), c + r.randint(0, 4)
            if kind == "ru":
                up = cu
            rate = [self.amt(4, 9, .75), self.amt(4, 9, .75), self.amt(8, 16, .7), self.amt(8, 16, .7)]
            L.append("res r%d %s %s %s %d %d %d %d %s" % (i, kind, det, prof, cl, cu, lo, up, " ".join(rate)))
            R["r%d" % i] = kind
        L.append("close")
        n = nc = 0
        kinds = sorted(set(R.values()))
        for _ in range(r.randint(*self.nops)):
            op = r.choices(list(self.w), list(self.w.values()))[0]
            if not T and op != "obs":
                op = "tok"
            ks = sorted(T)
            k = r.choice(ks) if ks else ""
            H = self.H
            if op == "tok":
                if len(T) >= self.nmax:
                    continue
                k = "k%d" % n; n += 1
                kd = r.choice(kinds)
                p = "use" if kd == "ru" else r.choice(["con", "pro"])
                ql, qh = self.win(0, 5)
                a, b = self.win(0, H)
                self.may(("o", k + "s", a, b))
                l = "tok %s %s %d %d %d %d" % (k, p, ql, qh, a, b)
                if p == "use":
                    dl, dh = self.win(1, 6)
                    el, eh = r.randint(0, a + dl), r.randint(b + dl, H + 8)
                    self.may(("o", k + "e", el, eh), (k + "s", k + "e", dl, dh))
                    l += " %d %d %d %d" % (el, eh, dl, dh)
                L.append(l + (" auto" if r.random() < .15 else "")); T[k] = p
                if r.random() < .6:
                    L.append("act " + k)
                    if list(R.values()).count(kd) > 1:
                        L.append("obj %s %s" % (k, r.choice([x for x in R if R[x] == kd])))
            elif op in ("act", "cancel", "reso", "qr"):
                L.append("%s %s" % (op, k))
            elif op == "delt":
                L += (["cancel " + k] if r.random() < .6 else []) + ["del " + k]
                if len(T) > 1: del T[k]
                C = [c for c in C if k not in c[1]]
                for c in []: pass
            elif op == "obj":
                xs = [x for x in R if R[x] == ("ru" if T[k] == "use" else "rv")]
                L.append("obj %s %s" % (k, r.choice(xs)))
            elif op == "qb":
                a, b = self.win(0, 5); L.append("qb %s %d %d" % (k, a, b))
            elif op == "qs":
                L.append("qs %s %d" % (k, r.randint(0, 5)))
            elif op == "ts":
                t, x = r.randint(0, H), r.choice("se") if T[k] == "use" else "s"
                if self.may(("o", k + x, t, t)):
                    L.append("ts %s %d %s" % (k, t, x))
            elif op == "tr":
                x = r.choice("se") if T[k] == "use" else "s"
                L.append("tr %s %s" % (k, x))
                y = [i for i, c in enumerate(self.tc) if c[:2] == ("o", k + x)][1:]
                for i in reversed(y):
                    if self.tc[i][2] == self.tc[i][3] and len(self.tc[i]) == 4: del self.tc[i]
            elif op == "tb":
                if r.random() < .5: a, b = self.win(0, H)
                else: a, b = r.randint(0, 4), r.randint(7, H + 4)
                x = r.choice("se") if T[k] == "use" else "s"
                if self.may(("o", k + x, a, 99), ("o", k + x, -99, b)):
                    L.append("tb %s %s %d %d" % (k, x, a, b))
            elif op == "con" and len(ks) > 1:
                k2 = r.choice([x for x in ks if x != k])
                t = r.choice(["precedes", "precedes", "strictlyPrecedes", "concurrent", "temporalDistance"])
                s = lambda x: r.choice("se") if T[x] == "use" else "s"
                x, x2 = s(k), s(k2)
                l = "con c%d %s %s %s %s %s" % (nc, t, k, x, k2, x2)
                lo, hi = {"precedes": (0, 99), "strictlyPrecedes": (1, 99), "concurrent": (0, 0)}.get(t, (0, 0))
                if t == "temporalDistance":
                    lo, hi = self.win(-3, 5)
                    l += " %d %d" % (lo, hi)
                if not self.may((k + x, k2 + x2, lo, hi)):
                    continue
                L.append(l); C.append(("c%d" % nc, (k, k2))); nc += 1
            elif op == "qc" and len(ks) > 1 and not self.tol:
                k2 = r.choice([x for x in ks if x != k])
                o = r.random() < .7
                L += ["obs"] * o + ["qc q%d %s %s %s" % (nc, r.choice(["leq", "leq", "eq"]), k, k2)] + ["obs"] * o; QC.append(("q%d" % nc, (k, k2))); nc += 1
            elif op == "delqc" and QC:
                L.append("delqc " + QC.pop(r.randrange(len(QC)))[0])
            elif op == "delcon" and C:
                c = C.pop(r.randrange(len(C))); L.append("delcon " + c[0])
            elif op in ("lim", "cap"):
                x = r.choice(sorted(R)); a, b = self.win(-3, 10); L.append("%s %s %d %d %d" % (op, x, r.randint(0, H), a, b))
            elif op == "obs":
                L.append("obs")
        L.append("obs")
        return Ep("res tol" if self.tol else "res", L)
