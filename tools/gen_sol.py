"""Random solver episodes: a small problem, a configuration, and a history of steps, resets, backjumps and edits."""
import json
from vt import Ep
import gen_pdb

ANY = dict(cls="", pred="", var="", mrel="", mcls="", mpred="")
XML = dict(cls="class-match", pred="predicate-match", var="var-match", mrel="masterRelation", mcls="masterClass", mpred="masterPredicate")
def xml(cfg):
    def attrs(r):
        return "".join(' %s="%s"' % (XML[k], r[k]) for k in XML if r[k])
    def flt(r):
        return "<FlawFilter%s%s/>" % (attrs(r), ' component="%s"' % r["comp"] if r["comp"] else "")
    out = ['<Solver name="s">'] + [flt(r) for r in cfg["flt"]]
    for m in cfg["mgrs"]:
        out.append("<%s>" % dict(var="UnboundVariableManager", tok="OpenConditionManager", thr="ThreatManager")[m["ty"]])
        out += [flt(r) for r in m["flt"]]
        for h in m["hs"]:
            out.append('<FlawHandler%s component="%s"%s%s>%s%s</FlawHandler>' % (attrs(h), h["comp"], "" if h["prio"] == 99999 else ' priority="%d"' % h["prio"], ' maxChoices="%d"' % h["max"] if h["max"] else "",
                "".join('<Guard name="%s" value="%s"/>' % tuple(g) for g in h["gs"]), "".join('<MasterGuard name="%s" value="%s"/>' % tuple(g) for g in h["mg"])))
        out.append("</%s>" % dict(var="UnboundVariableManager", tok="OpenConditionManager", thr="ThreatManager")[m["ty"]])
    return "".join(out + ["</Solver>"])
def handler(comp, prio=99999, mx=0, gs=(), mg=(), **k):
    return dict(ANY, comp=comp, prio=prio, max=mx, gs=[list(g) for g in gs], mg=[list(g) for g in mg], **k)
def filt(comp="", **k):
    return dict(ANY, comp=comp, **k)

class CSP:
    """global variables only"""
    TY = dict(neq=2, leq=2, lt=2, eq=2, addEq=3, allDiff=3)
    def __init__(self, r, ops=(8, 20), cut=.1, tight=False):
        self.tight = tight
        self.r, self.L, self.nv, self.nc, self.cons = r, [], 0, 0, []
        self.ops, self.cut = r.randint(*ops), cut
        self.n0 = r.randint(2, 5)
        self.density = r.choice([1.5, 2, 2.5] if tight else [.5, 1, 1.5, 2])
        self.solved = 0
    def var(self):
        lo = self.r.randint(0, 2)
        self.L.append("var v%d int %d %d" % (self.nv, lo, lo + self.r.choice([0, 1, 1, 2, 2, 3])))
        self.nv += 1
    def con(self):
        ty = self.r.choice(list(self.TY))
        if self.nv < self.TY[ty]:
            return
        vs = self.r.sample(range(self.nv), self.TY[ty])
        self.L.append("con c%d %s %s" % (self.nc, ty, " ".join("- v%d" % v for v in vs)))
        self.cons.append("c%d" % self.nc)
        self.nc += 1
    def cfg(self):
        r = self.r
        hs = [handler(r.choice(["Min", "Max", "Min", "Random"]), r.choice([99999, 5, 10]))]
        for v in range(self.n0):
            if r.random() < .4:
                hs.append(handler(r.choice(["Min", "Max", "Random"]), r.choice([0, 1, 2, 5, 10]), mx=r.choice([1, 2]) if r.random() < self.cut else 0, var="v%d" % v))
        r.shuffle(hs)
        fl = [filt(var="v%d" % r.randrange(self.n0))] if r.random() < .15 else []
        if r.random() < .15:
            fl.append(filt("Singleton"))
        return dict(flt=fl if r.random() < .5 else [], mgrs=[dict(ty="var", flt=fl, hs=hs)])
    def pick(self):
        return "- v%d" % self.r.randrange(self.nv)
    def op(self):
        r = self.r
        o = r.choices(["step", "solve", "sreset", "backjump", "sclear", "var", "con", "delcon", "spec", "reset", "restr", "look"], [22, 4, 2, 3, .7, .7, 2.5, 1, 1.5, 1.5, .7, 1])[0]
        if o == "step":
            self.L += ["step"] * r.choice([1, 1, 2, 3, 5])
        elif o == "solve":
            self.L.append("solve %s %s" % (r.choice(["-", "-", r.randint(0, 8)]), r.choice(["-", "-", "-", r.randint(0, 3)])))
        elif o == "sreset":
            self.L.append("sreset" + r.choice(["", " 1", " 2"]))
        elif o == "backjump":
            self.L.append("backjump %d" % r.randint(1, 3))
        elif o == "var":
            if self.nv < 6:
                self.var()
        elif o == "con":
            self.con()
        elif o == "delcon":
            if self.cons:
                self.L.append("delcon " + self.cons.pop(r.randrange(len(self.cons))))
        elif o == "spec":
            self.L.append("spec %s %d" % (self.pick(), r.randint(0, 4)))
        elif o == "reset":
            self.L.append("reset " + self.pick())
        elif o == "restr":
            a = r.randint(0, 3)
            self.L.append("restr %s %d %d" % (self.pick(), a, a + r.randint(0, 2)))
        else:
            self.L.append(o)
    def episode(self):
        r = self.r
        for _ in range(self.n0):
            self.var()
        for _ in range(int(self.n0 * self.density)):
            self.con()
        cfg = self.cfg()
        self.L = ["meta " + json.dumps(dict(cfg=cfg), separators=(",", ":"))] + self.L
        if r.random() < .3:
            self.L.append("prop")
        self.L.append("solver " + xml(cfg))
        for _ in range(0 if self.tight and r.random() < .6 else self.ops):
            self.op()
        self.L.append("solve - -")
        if r.random() < .6:
            self.L += ["sreset", "look"] + (["solve - -"] if r.random() < .6 else [])
        return Ep("sol", self.L)

class Plan(gen_pdb.PDBGen):
    """tokens, subgoals and timelines"""
    def __init__(self, r, ops=(10, 25), guardy=False, **k):
        self.guardy = guardy    # many handlers of the same rank and priority whose guards come and go
        super().__init__(r, ops=ops, max_tok=r.choice([2, 3, 4]), ntl=r.choice([1, 1, 2]), tight=r.choice([8, 12, 20]), rules=k.pop("rules", .5), **k)
    def cfg(self):
        r = self.r
        pr = lambda: r.choice([99999, 1, 2, 5, 10, 50] if not self.guardy else [99999, 2, 2, 2, 5])
        preds = list(self.m["pred"].values())
        def cond(h, var=False):
            p = r.choice(preds)
            k = r.choice(["pred", "cls", "pc", "mrel", "none"] + (["var", "var"] if var else []))
            if k in ("pred", "pc"):
                h["pred"] = p["nm"]
            if k in ("cls", "pc"):
                h["cls"] = p["ty"]
            if k == "mrel":
                h["mrel"] = r.choice(["none", "meets", "before", "any", "contains", "after"])
                if r.random() < .3:
                    h["mpred"] = p["nm"]
            if k == "var":
                h["var"] = r.choice(["x", "object", "start", "end", "duration", "c"])
            return h
        def guard():
            k = r.random()
            if k < .55 or (k < .8 and not enum):
                return ["x", str(r.choice([0, 3] if self.guardy else [0, 3, 5]))]
            return ["c", r.choice(gen_pdb.COLORS[:2])] if k < .8 else ["object", r.choice(list(self.m["ob"]))]
        enum = all("c" in p["par"] for p in preds)
        def guards(h):
            if self.guardy:
                if h["comp"] != "Random":
                    g = [guard() for _ in range(r.choice([1, 1, 1, 2]))]
                    h["gs" if r.random() < .85 else "mg"] = g if len(set(x[0] for x in g)) == len(g) else g[:1]
            elif r.random() < .5 and h["comp"] != "Random":
                h["gs" if r.random() < .7 else "mg"] = [guard()]
            return h
        def hs(comp, var=False, n=(0, 0, 1, 2, 3)):
            out = [handler(r.choice(comp), pr())]
            plain = self.guardy and r.random() < .8
            for _ in range(r.choice((2, 3, 4, 5) if self.guardy else n)):
                out.append(guards((lambda h, v: h) (handler(r.choice(comp), pr()), var) if plain else cond(handler(r.choice(comp), pr(), mx=r.choice([1, 2]) if r.random() < .07 else 0), var)))
            r.shuffle(out)
            return out
        vf = []
        # time variables are left to the others, or everything is bound
        if r.random() < .75:
            vf += [filt(var=v) for v in ("start", "end", "duration")]
        if r.random() < (.6 if self.guardy else .2):
            vf.append(filt(var=r.choice(["x", "object"])))
        if r.random() < .2:
            vf.append(filt(r.choice(["Singleton", "InfiniteDynamicFilter", "ParameterFilter", "TokenMustBeAssignedFilter"])))
        tf = [cond(filt(r.choice(["", "", "MasterMustBeInsertedFilter"])))] if r.random() < .3 else []
        tf = [f for f in tf if f["comp"] or any(f[k] for k in ANY)]
        mgrs = []
        if r.random() < .9:
            mgrs.append(dict(ty="tok", flt=tf, hs=hs(["StandardOpenConditionHandler", "BasicOpenConditionHandler"])))
        if r.random() < .85:
            mgrs.append(dict(ty="thr", flt=[], hs=hs(["StandardThreatHandler"])))
        if r.random() < .85 or not mgrs:
            mgrs.append(dict(ty="var", flt=vf, hs=hs(["Min", "Max", "Random"], True)))
        r.shuffle(mgrs)
        top = [cond(filt())] if r.random() < .15 else []
        return dict(flt=[f for f in top if any(f[k] for k in ANY)], mgrs=mgrs)
    def episode(self):
        r, L = self.r, self.lines
        cfg = self.cfg()
        L += ["meta " + json.dumps(dict(self.m, cfg=cfg), separators=(",", ":")), "nddl " + self.text]
        for _ in range(r.choice([1, 2, 2, 3])):
            t = self.newtok()
            L.append("restr %s start 0 %d" % (t, self.h))
            L.append("restr %s end 0 %d" % (t, self.h))
            if r.random() < .5:
                L.append("restr %s x 0 %d" % (t, r.choice([1, 2, 4])))
        for _ in range(r.choice([0, 1, 3, 6])):
            getattr(self, "op_" + r.choice(["act", "con", "spec", "restr", "before", "mrg"]))()
        L.append("solver " + xml(cfg))
        w = dict(self.w, tok=2, act=3, mrg=2, cancel=3, deltok=1, obs=.5, compat=0, choices=0, adv=0, chain=0, crowd=0, var=.3, prop=.5)
        ks, ws = list(w), list(w.values())
        for _ in range(self.n):
            o = r.choices(["step", "solve", "sreset", "backjump", "sclear", "look", "edit"], [20, 2, 2.5, 2.5, .5, 1, 9])[0]
            if self.guardy and r.random() < .5:
                o = "guard"
            if o == "guard":
                t = self.tok()
                vs = ["x", "x"] + (["c", "c"] if "c" in self.m["pred"][self.toks[t]]["par"] else [])
                v = r.choice(vs)
                L.append("sreset")
                if r.random() < .5:
                    L += ["reset %s %s" % (t, v)]
                else:
                    L += ["spec %s %s %s" % (t, v, r.choice([0, 3]) if v == "x" else r.choice(gen_pdb.COLORS[:2]))]
                L += r.choice([["prop"], [], ["look"]]) + ["step"] * r.choice([0, 1, 2])
            elif o == "step":
                L += ["step"] * r.choice([1, 2, 3, 5, 8])
            elif o == "solve":
                L.append("solve %s %s" % (r.choice([10, 40, r.randint(0, 8)]), r.choice(["-", "-", r.randint(0, 4)])))
            elif o == "sreset":
                L.append("sreset" + r.choice(["", " 1", " 2"]))
            elif o == "backjump":
                L.append("backjump %d" % r.randint(1, 3))
            elif o == "edit":
                getattr(self, "op_" + r.choices(ks, ws)[0])()
            else:
                L.append(o)
        L += ["solve 60 -"] + (["sreset", "look"] if r.random() < .6 else [])
        return Ep("sol", L)
