"""Random plan database episodes: a small random model, tokens, merging, ordering, temporal constraints, queries."""
import json
from vt import Ep

def strict(a, av, b, bv):        # a.av < b.bv
    return ["strict", a, av, b, bv]
RELS = {  # as documented: m = origin (master), s = target
 "any": [], "meets": [["concurrent", "m", "end", "s", "start"]], "met_by": [["concurrent", "s", "end", "m", "start"]],
 "contains": [["precedes", "m", "start", "s", "start"], ["precedes", "s", "end", "m", "end"], ["leq", "s", "duration", "m", "duration"]],
 "contained_by": [["precedes", "s", "start", "m", "start"], ["precedes", "m", "end", "s", "end"], ["leq", "m", "duration", "s", "duration"]],
 "before": [["precedes", "m", "end", "s", "start"]], "after": [["precedes", "s", "end", "m", "start"]],
 "starts": [["concurrent", "m", "start", "s", "start"]], "ends": [["concurrent", "s", "end", "m", "end"]],
 "parallels": [["precedes", "m", "start", "s", "start"], ["precedes", "m", "end", "s", "end"]],
 "paralleled_by": [["precedes", "s", "start", "m", "start"], ["precedes", "s", "end", "m", "end"]],
 "ends_after": [strict("s", "end", "m", "end")], "ends_before": [strict("m", "end", "s", "end")],
 "ends_after_start": [strict("s", "start", "m", "end")], "starts_before_end": [strict("m", "start", "s", "end")],
 "starts_during": [["precedes", "s", "start", "m", "start"], strict("m", "start", "s", "end")],
 "ends_during": [strict("s", "start", "m", "end"), ["precedes", "m", "end", "s", "end"]],
 "contains_start": [["precedes", "m", "start", "s", "start"], strict("s", "start", "m", "end")],
 "contains_end": [strict("m", "start", "s", "end"), ["precedes", "m", "end", "s", "end"]],
 "starts_after": [strict("s", "start", "m", "start")], "starts_before": [strict("m", "start", "s", "start")],
 "equals": [["concurrent", "m", "start", "s", "start"], ["concurrent", "s", "end", "m", "end"], ["eq", "m", "duration", "s", "duration"]],
}
COLORS = ["red", "green", "blue"]

def model(r, rules=.5, ntl=None, sub=True):
    """one model: NDDL text and its description"""
    types = {"T": ""}
    if sub and r.random() < .3:
        types["S"] = "T"
    types["U"] = ""
    tl = [t for t in types if t != "U"]
    pars = {}
    text = ["typedef int [0 20] rng;"]
    enum = r.random() < .5
    if enum:
        text.append("enum Color { " + ", ".join(COLORS) + " }")
    body = {}
    for c in ("T", "U"):
        for p in (("P", "Q") if c == "T" else ("R",)):
            body[c, p] = {"x": ("rng", dict(k="n", lo=0, hi=20))}
            if enum and r.random() < .6:
                body[c, p]["c"] = ("Color", dict(k="e", vs=COLORS))
    for c in types:
        ext = "Timeline" if c == "T" else types[c]
        text.append("class %s%s { %s }" % (c, " extends " + ext if ext else "", " ".join(
            "predicate %s { %s }" % (p, " ".join("%s %s;" % (ty, v) for v, (ty, _) in vs.items())) for (cc, p), vs in body.items() if cc == c)))
    pred = {}
    for c in types:
        for (cc, p), vs in body.items():
            if cc == c or types[c] == cc:
                pred[c + "." + p] = dict(ty=c, nm=p, par={v: d for v, (_, d) in vs.items()}, sub=[])
    # unconditional subgoals, never circular: P -> Q -> R
    order = {"P": 0, "Q": 1, "R": 2}
    for (c, p) in list(body):
        if r.random() < rules and p != "R":
            goals, out = [], []
            for k in range(r.choice([1, 1, 2])):
                tp = r.choice([q for q in pred if order[pred[q]["nm"]] > order[p]])
                rel = r.choice(list(RELS))
                cs = [list(x) for x in RELS[rel]]
                out.append("%s(%s g%d);" % (rel, tp, k))
                if r.random() < .4:
                    ty = r.choice(["eq", "leq"])
                    cs.append([ty, "m", "x", "s", "x"])
                    out.append("%s(x, g%d.x);" % (ty, k))
                if r.random() < .3 and pred[tp]["ty"] == c:
                    cs.append(["eq", "m", "object", "s", "object"])
                    out.append("eq(object, g%d.object);" % k)
                goals.append(dict(p=tp, cs=cs))
            text.append("%s::%s { %s }" % (c, p, " ".join(out)))
            for q in pred.values():
                if q["nm"] == p and (q["ty"] == c or types[q["ty"]] == c):
                    q["sub"] = goals
    ob = {}
    for i in range(ntl or r.choice([1, 2, 2, 3])):
        ob["o%d" % i] = r.choice(tl) if i else tl[-1]
    for i in range(r.choice([1, 2])):
        ob["u%d" % i] = "U"
    for o, t in ob.items():
        text.append("%s %s = new %s();" % (t, o, t))
    text.append("close();")
    return " ".join(text), dict(ext=types, tl=tl, pred=pred, ob=ob)

DEFAULT = dict(tok=5, act=6, mrg=5, cancel=3, deltok=1, rejt=.7, spec=4, reset=2, restr=3, con=4, delcon=2, before=7, free=2, obs=8, compat=2, choices=3, adv=3, prop=1, var=.7, chain=.5, crowd=.4)

class PDBGen:
    def __init__(self, r, w=None, ops=(18, 40), rules=.5, ntl=None, tight=None, merge_safe=False, max_tok=7, sub=True, cpt=None):
        self.r, self.n, self.maxtok = r, r.randint(*ops), max_tok
        self.w = dict(DEFAULT)
        self.w.update(w or {})
        self.text, self.m = model(r, rules, ntl, sub)
        self.toks, self.cons, self.vars, self.lines, self.seq = {}, {}, [], [], {}
        self.dvars = []
        self.h = tight or r.choice([12, 25, 60])
        self.preds = [p for p in self.m["pred"] if r.random() < .75] or ["T.P"]
    # the generator only follows roughly what exists; operations that do not apply are skipped by the driver
    def tok(self):
        if not self.toks:
            return self.newtok()
        return self.r.choice(list(self.toks))
    def newtok(self):
        t = "t%d" % (len([x for x in self.toks if "/" not in x]) + 1)
        if t in self.toks:
            t = "n%d" % len(self.lines)
        p = self.r.choice(self.preds)
        self.toks[t] = p
        self.lines.append("tok %s %s%s" % (t, p, " rej" if self.r.random() < .25 else ""))
        return t
    def addslaves(self, t):
        for g in self.m["pred"][self.toks[t]]["sub"]:
            b = t + "/" + self.m["pred"][g["p"]]["nm"]
            n, k = b, 2
            while n in self.toks:
                n, k = b + "#%d" % k, k + 1
            self.toks[n] = g["p"]
    def tv(self, t=None):
        r = self.r
        if self.vars and t is None and r.random() < .15:
            return "- " + r.choice(self.vars)
        return (t or self.tok()) + " " + r.choice(["start", "end"])
    def pv(self):
        return self.tok() + " x"
    def episode(self):
        r = self.r
        L = self.lines
        L += ["meta " + json.dumps(self.m, separators=(",", ":")), "nddl " + self.text]
        for _ in range(r.choice([2, 3])):
            t = self.newtok()
            if r.random() < .5:
                L.append("restr %s start 0 %d" % (t, self.h))
        ks, ws = list(self.w), list(self.w.values())
        while len(L) < self.n + 5:
            getattr(self, "op_" + r.choices(ks, ws)[0])()
        L.append("obs")
        return Ep("plan", L)
    def op_tok(self):
        if len(self.toks) < self.maxtok:
            t = self.newtok()
            if self.r.random() < .5:
                self.lines.append("restr %s %s 0 %d" % (t, self.r.choice(["start", "end", "end"]), self.h))
            if self.r.random() < .3:
                self.lines.append("spec %s duration %d" % (t, self.r.randint(1, 8)))
    def op_var(self):
        if len(self.vars) < 2:
            v = "v%d" % len(self.vars)
            self.vars.append(v)
            self.lines.append("var %s int 0 20" % v)
    def op_act(self):
        t = self.tok()
        self.lines.append("act " + t)
        if len(self.toks) < self.maxtok + 6:
            self.addslaves(t)
    def op_rejt(self):
        self.lines.append("rejt " + self.tok())
    def op_mrg(self):
        t, a = self.tok(), self.tok()
        same = [x for x in self.toks if self.m["pred"][self.toks[x]]["nm"] == self.m["pred"][self.toks[t]]["nm"] and x != t]
        if same and self.r.random() < .9:
            a = self.r.choice(same)
        if a != t:
            if self.r.random() < .5:
                self.lines.append("act " + a)
            self.lines.append("mrg %s %s" % (t, a))
    def op_cancel(self):
        self.lines.append("cancel " + self.tok())
    def op_deltok(self):
        t = self.r.choice([x for x in self.toks if "/" not in x] or [self.tok()])
        if self.r.random() < .6:
            self.lines.append("cancel " + t)
        self.lines.append("deltok " + t)
    def val(self, v):
        r = self.r
        if v == "duration":
            return r.randint(1, 9)
        return r.randint(0, 20 if v == "x" else self.h)
    def somevar(self):
        t, r = self.tok(), self.r
        vs = ["start", "end", "duration", "x", "object"] + (["c"] if "c" in self.m["pred"][self.toks[t]]["par"] else [])
        return t, r.choice(vs)
    def objs(self, t):
        ty = self.m["pred"][self.toks[t]]["ty"]
        return [o for o, k in self.m["ob"].items() if k == ty or self.m["ext"][k] == ty]
    def op_spec(self):
        t, v = self.somevar()
        x = self.r.choice(COLORS) if v == "c" else self.r.choice(self.objs(t) or ["o0"]) if v == "object" else self.val(v)
        self.lines.append("spec %s %s %s" % (t, v, x))
    def op_reset(self):
        sp = [x.split() for x in self.lines if x.startswith("spec ")]
        if sp:
            x = self.r.choice(sp)
            self.lines.append("reset %s %s" % (x[1], x[2]))
    def op_restr(self):
        t, v = self.somevar()
        r = self.r
        if v == "c":
            a = r.sample(COLORS, 2)
        elif v == "object":
            o = self.objs(t)
            if not o:
                return
            a = r.sample(o, r.randint(1, len(o)))
        else:
            lo = self.val(v)
            a = [max(1, lo - r.randint(0, 6)) if v == "duration" else r.choice([0, max(0, lo - 5)]), lo + r.randint(0, 12)]
        self.lines.append("restr %s %s %s" % (t, v, " ".join(map(str, a))))
    def op_con(self):
        r = self.r
        c = "c%d" % len(self.lines)
        k = r.random()
        if k < .6:
            s = "%s %s %s" % (r.choice(["precedes", "precedes", "strictlyPrecedes", "concurrent"]), self.tok() + " " + r.choice(["end", "start"]), self.tok() + " " + r.choice(["start", "start", "end"]))
        elif k < .72:
            d = "d%d" % len(self.lines)
            lo = r.randint(-5, 8)
            self.lines.append("var %s int %d %d" % (d, lo, lo + r.randint(0, 10)))
            self.dvars.append(d)
            s = "temporalDistance %s - %s %s" % (self.tok() + " " + r.choice(["end", "start"]), d, self.tok() + " " + r.choice(["start", "end"]))
        elif k < .85:
            a, b = self.pv(), self.pv() if not self.vars or r.random() < .6 else "- " + r.choice(self.vars)
            s = "%s %s %s" % (r.choice(["eq", "leq", "leq"]), a, b)
        elif k < .93:
            cs = [t for t in self.toks if "c" in self.m["pred"][self.toks[t]]["par"]]
            if len(cs) < 2:
                return
            a, b = r.sample(cs, 2)
            s = "%s %s c %s c" % (r.choice(["eq", "neq"]), a, b)
        else:
            a, b = self.tok(), self.tok()
            if set(self.objs(a)).isdisjoint(self.objs(b)):
                return
            s = "eq %s object %s object" % (a, b)
        x = s.split()
        if x[1:3] == x[-2:]:
            return
        self.lines.append("con %s %s" % (c, s))
        self.cons[c] = s
    def op_delcon(self):
        if self.cons:
            c = self.r.choice(list(self.cons))
            del self.cons[c]
            self.lines.append("delcon " + c)
    def op_before(self):
        r = self.r
        tls = [o for o, k in self.m["ob"].items() if k != "U"]
        o = r.choice(tls)
        ts = [t for t in self.toks if self.m["pred"][self.toks[t]]["ty"] != "U"]
        if not ts:
            return
        t = r.choice(ts)
        q = self.seq.setdefault(o, [])
        if r.random() < .5:
            self.lines.append("act " + t)
        if not q:
            self.lines.append("before %s %s %s" % (o, t, t))
            q.append(t)
        else:
            k = r.choice(q)
            self.lines.append("before %s %s %s" % ((o, t, k) if r.random() < .5 else (o, k, t)))
            q.append(t)
    def op_free(self):
        b = [x.split()[1:] for x in self.lines if x.startswith("before ")]
        if b:
            self.lines.append("free " + " ".join(self.r.choice(b)))
    def op_chain(self):      # order several tokens one after the other, then free some of it
        r = self.r
        tls = [o for o, k in self.m["ob"].items() if k != "U"]
        ts = [t for t in self.toks if self.m["pred"][self.toks[t]]["ty"] != "U"]
        if len(ts) < 3:
            return
        o, ts = r.choice(tls), r.sample(ts, min(len(ts), r.choice([3, 4, 4, 5])))
        for t in ts:
            self.lines.append("act " + t)
        pairs = [(ts[0], ts[0])]
        for i in range(1, len(ts)):
            k = ts[i - 1] if r.random() < .6 else r.choice(ts[:i])
            pairs.append((k, ts[i]) if r.random() < .65 else (ts[i], k))
        for p in pairs:
            self.lines.append("before %s %s %s" % ((o,) + p))
        for p in r.sample(pairs, r.randint(1, len(pairs))):
            self.lines.append("free %s %s %s" % ((o,) + p))
            if r.random() < .4:
                self.lines.append("obs")
    def op_crowd(self):      # several active tokens of one predicate, some related in time to the one asked about
        r = self.r
        p = r.choice(self.preds)
        ts = [t for t in self.toks if self.toks[t] == p]
        while len(ts) < 3 and len(self.toks) < self.maxtok + 2:
            self.preds, old = [p], self.preds
            ts.append(self.newtok())
            self.preds = old
        if len(ts) < 3:
            return
        r.shuffle(ts)
        for t in ts[1:]:
            self.lines.append("act " + t)
        for t in ts[1:]:
            if r.random() < .5:
                a, b = (ts[0], t) if r.random() < .5 else (t, ts[0])
                c = "c%d" % len(self.lines)
                self.lines.append("con %s %s %s %s %s %s" % (c, r.choice(["precedes", "strictlyPrecedes"]), a, r.choice(["end", "start"]), b, r.choice(["start", "end"])))
                self.cons[c] = ""
        for lim in r.sample(["-", "1", "2", "3"], 2):
            self.lines.append("compat %s %s 1" % (ts[0], lim))
        self.lines.append("compat %s %s 0" % (ts[0], r.choice(["1", "2", "-"])))
    def op_obs(self):
        self.lines.append("obs")
    def op_prop(self):
        self.lines.append("prop")
    def op_compat(self):
        self.lines.append("compat %s %s %d" % (self.tok(), self.r.choice(["-", "-", "1", "2"]), self.r.choice([0, 1])))
    def op_choices(self):
        self.lines.append("choices %s %s" % (self.tok(), self.r.choice(["-", "-", "1", "2"])))
    def op_adv(self):
        r, ts = self.r, list(self.toks)
        if len(ts) < 3:
            return
        a = r.sample(ts, 3)
        k = r.choice(["prec", "conc", "fit", "dist"])
        if k == "dist":
            self.lines.append("adv dist %s %s %s %s" % (a[0], r.choice(["start", "end"]), a[1], r.choice(["start", "end"])))
        else:
            self.lines.append("adv %s %s" % (k, " ".join(a[:3 if k == "fit" else 2])))
