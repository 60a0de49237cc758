----------------------------- MODULE PDBTrace -----------------------------
(* Judges recorded runs of the real plan database against PDB.tla.
   P01 token life cycle | P02 merging and splitting | P03 timelines | P04 merge candidates
   P06 deletion and dependants | T03 plan time variables and the temporal advisor                  *)
EXTENDS PDB, VTrace
VARIABLES l, st
Ts0 == [S |-> S0, I |-> EmptyFn, has |-> FALSE, ep |-> "", i |-> 0, dead |-> FALSE, nv |-> -1, nc |-> 0]
DomOf(j) == IF j.k = "n" THEN Num(j.lo, j.hi) ELSE Enm(Range(j.vs))
LoadMeta(S, m) == [S EXCEPT !.m = [ext |-> m.ext, tl |-> Range(m.tl), pred |-> [p \in DOMAIN m.pred |-> [ty |-> m.pred[p].ty, nm |-> m.pred[p].nm,
                                  par |-> [v \in DOMAIN m.pred[p].par |-> DomOf(m.pred[p].par[v])], sub |-> m.pred[p].sub]]], !.ob = m.ob]
Scope(e, i) == [k \in 1..((Len(e.a) - i + 1) \div 2) |-> <<e.a[i + 2 * k - 2], e.a[i + 2 * k - 1]>>]
Val(S, x, e, i) == IF S.dom[x].k = "n" THEN NumTok(e, i) ELSE e.a[i]
ArgDom(S, x, e, i) == IF S.dom[x].k = "n" THEN Num(NumTok(e, i), NumTok(e, i + 1)) ELSE Enm({e.a[k] : k \in i..Len(e.a)})
Apply(S, e) ==
  LET a == e.a IN
  IF Has(e, "skip") THEN S ELSE
  CASE e.op = "meta" -> LoadMeta(S, e.m)
    [] e.op = "var" -> [S EXCEPT !.dom = (<<"-", a[1]>> :> Num(NumTok(e, 3), NumTok(e, 4))) @@ @]
    [] e.op = "tok" -> NewTok(S, a[1], a[2], "rej" \in Range(a), "")
    [] e.op = "act" -> Activate(S, a[1])
    [] e.op = "rejt" -> Reject(S, a[1])
    [] e.op \in {"mrg", "mrgtied"} -> Merge(S, a[1], a[2])
    [] e.op = "cancel" -> Cancel(S, a[1])
    [] e.op = "deltok" -> Delete(S, a[1])
    [] e.op = "spec" -> [S EXCEPT !.spc = (<<a[1], a[2]>> :> Val(S, <<a[1], a[2]>>, e, 3)) @@ @]
    [] e.op = "reset" -> [S EXCEPT !.spc = Without(@, <<a[1], a[2]>>)]
    [] e.op = "restr" -> [S EXCEPT !.dom[<<a[1], a[2]>>] = Cap(@, ArgDom(S, <<a[1], a[2]>>, e, 3))]
    [] e.op = "con" -> [S EXCEPT !.con = (a[1] :> [ty |-> a[2], sc |-> Scope(e, 3)]) @@ @]
    [] e.op = "delcon" -> [S EXCEPT !.con = Without(@, a[1])]
    [] e.op = "before" -> Before(S, a[1], a[2], a[3])
    [] e.op = "free" -> Free(S, a[1], a[2], a[3])
    [] OTHER -> S
Changing == {"meta", "var", "tok", "act", "rejt", "mrg", "mrgtied", "cancel", "deltok", "spec", "reset", "restr", "con", "delcon", "before", "free"}
\* ------------------------------------------------------------------ structure
F(tag, c, d) == IF c THEN {} ELSE {<<tag, d>>}
LifeTag(e) == IF e.op \in {"deltok", "cancel"} THEN "P06" ELSE "P01"
Structure(s, S, e) ==
  LET K == DOMAIN e.tk  X == DOMAIN S.tok IN
  IF K # X THEN {<<(IF e.op \in {"act", "tok"} THEN "P01" ELSE "P06") \o ".tokens", "present " \o ToString(K \ X) \o " missing " \o ToString(X \ K)>>}
  ELSE UNION {F("P01.state", e.tk[t].s = S.tok[t].st, t \o " is " \o e.tk[t].s \o " expected " \o S.tok[t].st)
          \cup F("P02.active", e.tk[t].at = S.tok[t].at, t \o " on " \o e.tk[t].at \o " expected " \o S.tok[t].at)
          \cup F("P02.merged", Range(e.tk[t].mg) = Merged(S, t), t \o ToString(e.tk[t].mg))
          \cup F("P06.master", e.tk[t].ms = S.tok[t].ms, t \o " of " \o e.tk[t].ms)
          \cup F("P06.slaves", Range(e.tk[t].sl) = Slaves(S, t), t \o ToString(e.tk[t].sl))
          \cup F("P01.predicate", e.tk[t].p = S.tok[t].p, t) : t \in X}
       \cup UNION {F("P04.active", Range(e.ac[p]) = {k \in X : S.tok[k].st = "active" /\ PredIsA(S.m, S.tok[k].p, p)}, p \o ToString(e.ac[p])) : p \in DOMAIN e.ac}
       \cup UNION {F("P03.sequence", e.ob[o].sq = SeqOf(S, o), o \o ToString(e.ob[o].sq) \o " expected " \o ToString(SeqOf(S, o))) : o \in DOMAIN e.ob}
NV(S) == Cardinality(DOMAIN S.dom) + Cardinality(DOMAIN S.tok)
NC(S) == 2 * Cardinality(DOMAIN S.tok) + Cardinality(DOMAIN S.con) + Cardinality(S.pc) + SumFn([o \in DOMAIN S.seq |-> Len(S.seq[o])])
Counts(s, S, e) == IF s.nv = -1 \/ \E t \in DOMAIN S.tok : S.tok[t].st = "merged" THEN {}
                   ELSE F("P06.variables", e.nv - NV(S) = s.nv, ToString(e.nv) \o " variables, expected " \o ToString(s.nv + NV(S)))
                        \cup F((IF e.op \in {"before", "free"} THEN "P03" ELSE "P06") \o ".constraints", e.nc - NC(S) = s.nc, ToString(e.nc) \o " constraints, expected " \o ToString(s.nc + NC(S)))
\* ------------------------------------------------------------------ domains
Shows(S, d, j) == IF d.k = "n" THEN ~j.m /\ j.lo = d.lo /\ j.hi = d.hi ELSE Range(j.vs) = d.vs
StateVals(S, t) == IF S.tok[t].st = "inactive" THEN {"ACTIVE", "MERGED"} \cup (IF S.tok[t].rej THEN {"REJECTED"} ELSE {})
                   ELSE {IF S.tok[t].st = "active" THEN "ACTIVE" ELSE IF S.tok[t].st = "merged" THEN "MERGED" ELSE "REJECTED"}
ShowJ(j) == IF j.e THEN ToString(j.vs) ELSE "[" \o ToString(j.lo) \o "," \o ToString(j.hi) \o "]"
ShowD(d) == IF d.k = "n" THEN "[" \o ToString(d.lo) \o "," \o ToString(d.hi) \o "]" ELSE ToString(d.vs)
DomTag(S, x) == IF x[1] \in DOMAIN S.tok /\ Merged(S, x[1]) # {} THEN "P02.domain" ELSE IF x[2] \in NumV THEN "T03.window" ELSE IF x[2] = "object" THEN "P03.object" ELSE "P02.domain"
Domains(S, I, e) ==
  LET R == RepVars(S) IN
  UNION {F(DomTag(S, x), x[2] = "duration" \/ Shows(S, I.d[x], e.dm[x[1]][x[2]]), x[1] \o "." \o x[2] \o " " \o ShowJ(e.dm[x[1]][x[2]]) \o " expected " \o ShowD(I.d[x])) : x \in {x \in R : x[1] # "-" \/ x \notin I.dur}}
  \cup UNION {LET j == e.dm[t]["duration"]  b == BndDur(I, t)  x == ExactDur(I, t) IN
        F("T03.duration", ~j.m /\ b.lo <= j.lo /\ j.lo <= x.lo /\ j.hi <= b.hi /\ x.hi <= j.hi, t \o " " \o ShowJ(j) \o " exact " \o ShowD(x) \o " from the bounds " \o ShowD(b)) : t \in {t \in DOMAIN S.tok : S.tok[t].at = ""}}
  \cup UNION {F("P01.statevar", Range(e.dm[t]["state"].vs) = StateVals(S, t), t \o ToString(e.dm[t]["state"].vs)) : t \in DOMAIN S.tok}
  \cup UNION {F("P03.tokens", Range(e.ob[o].tk) = {t \in DOMAIN S.tok : S.tok[t].st = "active" /\ o \in I.d[<<t, "object">>].vs}, o \o ToString(e.ob[o].tk)) : o \in DOMAIN S.ob}
  \cup (LET due == {t \in DOMAIN S.tok : S.tok[t].st = "active" /\ Lines(S, t) = {} /\ \E o \in I.d[<<t, "object">>].vs : TimelineOf(S, o)} IN
        F("P03.toOrder", DOMAIN e.to = due, ToString(DOMAIN e.to) \o " expected " \o ToString(due))
        \cup UNION {F("P03.toOrder", Range(e.to[t]) = {o \in I.d[<<t, "object">>].vs : TimelineOf(S, o)}, t \o ToString(e.to[t])) : t \in DOMAIN e.to \cap due})
\* tokens of a timeline: each ends before the next starts, as far apart as the constraints say
Gaps(S, I, e) ==
  UNION {LET q == SeqOf(S, o) IN UNION {
     LET g == e.gp[o][i]  lo == -DistOf(I, St(q[i + 1]), En(q[i]))  hi == DistOf(I, En(q[i]), St(q[i + 1])) IN
     F("P03.gap", g[1] >= 0 /\ g[1] = lo /\ g[2] = hi, o \o ": " \o q[i] \o " to " \o q[i + 1] \o " " \o ToString(g) \o " expected " \o ToString(<<lo, hi>>)) : i \in 1..(Len(q) - 1)}
     : o \in {o \in DOMAIN e.gp : Len(e.gp[o]) = Len(SeqOf(S, o)) - 1}}
Verdict(I, b) == F("T03.verdict", b = I.ok, IF I.ok THEN "inconsistent though a solution exists" ELSE "consistent though nothing satisfies the constraints")
\* ------------------------------------------------------------------ queries
Lim(e, i) == IF e.a[i] = "-" THEN 1000000 ELSE e.n[i]
Compat(S, I, e) ==
  LET t == e.a[1]  r == Range(e.r)  C == Candidates(S, t)  ov == {k \in C : Overlaps(S, I, t, k)}  lim == Lim(e, 2)  ex == e.a[3] = "1"
      must == IF ex THEN {k \in ov : MergeOk(S, t, k)} ELSE {k \in C : (\A v \in MergeSame(S, t) : v = "duration" \/ Overlap(I.d[<<t, v>>], I.d[<<k, v>>])) /\ Overlap(ExactDur(I, t), ExactDur(I, k))}
      can == IF ex THEN {k \in ov : \A v \in {"start", "end"} : DistOf(I, <<t, v>>, <<k, v>>) >= 0 /\ DistOf(I, <<k, v>>, <<t, v>>) >= 0} ELSE ov
  IN F("P04.unsound", r \subseteq can, t \o " offered " \o ToString(r \ can))
     \cup F("P04.missing", Len(e.r) >= lim \/ must \subseteq r, t \o " not offered " \o ToString(must \ r))
     \cup F("P04.limit", Len(e.r) <= lim /\ Cardinality(r) = Len(e.r), ToString(e.r))
     \cup F("P04.count", e.cnt = Len(e.r), ToString(e.cnt))
     \cup F("P04.has", (e.has => C # {}) /\ ((\E k \in C : MergeOk(S, t, k)) => e.has), ToString(e.has))
Choices(S, I, e) ==
  LET t == e.a[1]  lim == Lim(e, 2)
      os == {o \in I.d[<<t, "object">>].vs : TimelineOf(S, o)}
      all == UNION {{<<o, c[1], c[2]>> : c \in Places(S, o, t)} : o \in os}
      must == {x \in all : Feasible(I, PlaceEdges(S, x[1], t, <<x[2], x[3]>>))}
      can == {x \in all : PlacePairOk(S, I, x[1], t, <<x[2], x[3]>>)}
      r == {<<e.r[i][1], e.r[i][2], e.r[i][3]>> : i \in DOMAIN e.r}
  IN F("P03.place", r \subseteq can, t \o " offered " \o ToString(r \ can))
     \cup F("P03.missing", Len(e.r) >= lim \/ must \subseteq r, t \o " not offered " \o ToString(must \ r))
     \cup F("P03.limit", Len(e.r) <= lim /\ Cardinality(r) = Len(e.r), ToString(e.r))
     \cup F("P03.has", (e.has => can # {}) /\ (must # {} => e.has), ToString(e.has))
     \cup F("P03.count", e.cnt >= Cardinality(must) /\ e.cnt <= Cardinality(can), ToString(e.cnt))
Advice(S, I, e) ==
  LET a == e.a IN
  CASE a[1] = "prec" -> F("T03.canPrecede", e.ret = CanPrec(I, a[2], a[3]), a[2] \o " " \o a[3] \o " " \o ToString(e.ret))
    [] a[1] = "conc" -> LET z(v) == DistOf(I, <<a[2], v>>, <<a[3], v>>) >= 0 /\ DistOf(I, <<a[3], v>>, <<a[2], v>>) >= 0 IN
                        F("T03.concurrent", e.ret = (z("start") /\ z("end")), a[2] \o " " \o a[3] \o " " \o ToString(e.ret))
    [] a[1] = "fit" -> F("T03.fit", (Feasible(I, {<<St(a[2]), En(a[3]), 0>>, <<St(a[4]), En(a[2]), 0>>}) => e.ret)
                                    /\ (e.ret => FitsGap(I, a[2], a[3], a[4])), ToString(a) \o ToString(e.ret))
    [] OTHER -> LET x == <<a[2], a[3]>>  y == <<a[4], a[5]>> IN
                F("T03.distance", e.ub = DistOf(I, x, y) /\ e.lb = -DistOf(I, y, x), ToString(<<e.lb, e.ub>>) \o " exact " \o ToString(<<-DistOf(I, y, x), DistOf(I, x, y)>>))
Structural == Changing \ {"meta"}
Judge(s, S, I, e) ==
  IF Has(e, "skip") THEN {} ELSE
  (IF Has(e, "tk") /\ (e.op # "obs" \/ e.con) THEN Structure(s, S, e) \cup Counts(s, S, e) ELSE {})
  \cup (CASE e.op = "obs" -> Verdict(I, e.con) \cup (IF I.ok /\ e.con /\ DOMAIN e.tk = DOMAIN S.tok THEN Domains(S, I, e) \cup Gaps(S, I, e) ELSE {})
          [] e.op = "prop" -> Verdict(I, e.ret)
          [] e.op = "compat" -> IF I.ok THEN Compat(S, I, e) ELSE {}
          [] e.op = "choices" -> IF I.ok THEN Choices(S, I, e) ELSE {}
          [] e.op = "adv" -> IF I.ok THEN Advice(S, I, e) ELSE {}
          [] OTHER -> {})
\* refusing what is possible
Refused(S, I, e) ==
  IF ~Has(e, "skip") THEN {} ELSE
  CASE e.op = "mrg" -> F("P04.refused", Has(e, "why") \/ ~(I.ok /\ e.a[1] \in DOMAIN S.tok /\ e.a[2] \in DOMAIN S.tok /\ S.tok[e.a[1]].st = "inactive" /\ e.a[2] \in Candidates(S, e.a[1]) /\ MergeOk(S, e.a[1], e.a[2])), e.a[1] \o " " \o e.a[2])
    [] e.op \in {"compat", "choices", "adv"} -> F("T03.verdict", ~I.ok \/ ~Has(e, "why") \/ e.why # "inconsistent", "refuses queries though solvable")
    [] OTHER -> {}
Queries == {"obs", "prop", "compat", "choices", "adv", "mrg"}
ErrTag(e) == IF e.op = "crash" THEN "ERR.crash" ELSE "ERR." \o e.op
\* a miscount is reported once and the run is judged further
Soft == {"P06.variables", "P06.constraints", "P03.constraints"}
Init == l = 1 /\ st = Ts0
Step(s, e) ==
  IF e.op = "begin" THEN [Ts0 EXCEPT !.ep = e.ep, !.dead = e.err # ""]
  ELSE IF e.op = "end" \/ s.dead THEN [s EXCEPT !.i = @ + 1]
  ELSE IF e.err # "" THEN IF Report(ErrTag(e), s.ep, s.i + 1, e.err) THEN [s EXCEPT !.dead = TRUE, !.i = @ + 1] ELSE s
  ELSE LET S == Apply(s.S, e)
           I == IF e.op \in Queries /\ ~s.has THEN TLCEval(Implied(s.S)) ELSE s.I
           bad == TLCEval(Judge(s, S, I, e) \cup Refused(s.S, I, e))
           r == \A b \in bad : Report(b[1], s.ep, s.i + 1, b[2])
           chg == e.op \in Changing /\ ~Has(e, "skip")
       IN IF r THEN [s EXCEPT !.S = TLCEval(S), !.I = IF chg THEN EmptyFn ELSE I, !.has = ~chg /\ (s.has \/ e.op \in Queries), !.i = @ + 1, !.dead = \E b \in bad : b[1] \notin Soft,
                              !.nv = IF (@ = -1 \/ bad # {}) /\ Has(e, "nv") THEN e.nv - NV(S) ELSE @, !.nc = IF (s.nv = -1 \/ bad # {}) /\ Has(e, "nv") THEN e.nc - NC(S) ELSE @] ELSE s
Next == l <= Len(Trace) /\ l' = l + 1 /\ st' = Step(st, Trace[l])
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
Spec == Init /\ [][Next]_<<l, st>>
===========================================================================
