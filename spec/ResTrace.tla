---------------------------- MODULE ResTrace ----------------------------
(* Judges recorded runs of real resources against Res.tla.
   Q01 levels, rates and totals of timetable and grounded profiles | Q02 violations and flaws reported
   exactly | Q03 levels of flow profiles                                                             *)
EXTENDS Res, VTrace
VARIABLES l, st
St0 == [m |-> M0, ep |-> "", i |-> 0, dead |-> FALSE]
Iv(e, i) == <<NumTok(e, i), NumTok(e, i + 1)>>
Cut(a, b) == <<Max2(a[1], b[1]), Min2(a[2], b[2])>>
Rel(t, e) == CASE t = "precedes" -> <<0, INF>> [] t = "strictlyPrecedes" -> <<1, INF>> [] t = "concurrent" -> <<0, 0>> [] OTHER -> Iv(e, 7)
Apply(m, e) ==
  LET a == e.a  k == IF Len(a) > 0 THEN a[1] ELSE ""  T == m.tok IN
  IF Has(e, "skip") THEN m ELSE
  CASE e.op = "res" -> AddRes(m, a[1], a[2], a[3], a[4], NumTok(e, 5), NumTok(e, 6), NumTok(e, 7), NumTok(e, 8), NumTok(e, 9), NumTok(e, 10), NumTok(e, 11), NumTok(e, 12))
    [] e.op = "tok" -> AddTok(m, k, a[2], Iv(e, 3), Iv(e, 5), IF a[2] = "use" THEN Iv(e, 7) ELSE Iv(e, 5), IF a[2] = "use" THEN Iv(e, 9) ELSE <<0, 0>>, a[Len(a)] = "auto")
    [] e.op = "obj" -> [m EXCEPT !.tok[k].obj = a[2]]
    [] e.op = "reso" -> [m EXCEPT !.tok[k].obj = ""]
    [] e.op = "act" -> [m EXCEPT !.tok[k].act = TRUE]
    [] e.op = "cancel" -> [m EXCEPT !.tok[k].act = FALSE]
    [] e.op = "del" -> [m EXCEPT !.tok = Without(@, k)]
    [] e.op = "qb" -> [m EXCEPT !.tok[k].q = Cut(@, Iv(e, 2))]
    [] e.op = "qs" -> [m EXCEPT !.tok[k].qs = Some(NumTok(e, 2))]
    [] e.op = "qr" -> [m EXCEPT !.tok[k].qs = None]
    [] e.op = "ts" -> IF T[k].pred = "use" /\ a[3] = "e" THEN [m EXCEPT !.tok[k].es = Some(NumTok(e, 2))] ELSE [m EXCEPT !.tok[k].ss = Some(NumTok(e, 2))]
    [] e.op = "tr" -> IF T[k].pred = "use" /\ a[2] = "e" THEN [m EXCEPT !.tok[k].es = None] ELSE [m EXCEPT !.tok[k].ss = None]
    [] e.op = "tb" -> IF T[k].pred = "use" /\ a[2] = "e" THEN [m EXCEPT !.tok[k].e = Cut(@, Iv(e, 3))] ELSE [m EXCEPT !.tok[k].s = Cut(@, Iv(e, 3))]
    [] e.op = "con" -> LET r == Rel(a[2], e) IN [m EXCEPT !.con = @ @@ (k :> <<Pt(m, a[3], a[4]), Pt(m, a[5], a[6]), r[1], r[2]>>)]
    [] e.op = "delcon" -> [m EXCEPT !.con = Without(@, k)]
    [] e.op = "qc" -> [m EXCEPT !.qc = @ @@ (IF a[2] = "leq" THEN (k :> <<a[3], a[4]>>) ELSE ((k \o "<") :> <<a[3], a[4]>>) @@ ((k \o ">") :> <<a[4], a[3]>>))]
    [] e.op = "delqc" -> [m EXCEPT !.qc = Without(Without(Without(@, k), k \o "<"), k \o ">")]
    [] e.op = "lim" -> [m EXCEPT !.res[k].lim = (NumTok(e, 2) :> Iv(e, 3)) @@ @]
    [] e.op = "cap" -> [m EXCEPT !.res[k].cap = (NumTok(e, 2) :> Iv(e, 3)) @@ @]
    [] OTHER -> m
F(tag, x) == {<<tag, x>>}
PTag(prof) == IF FlowP(prof) THEN "Q03" ELSE "Q01"
Names == <<"lowest level", "highest lowest level", "lowest highest level", "highest level", "least consumption", "most consumption", "least production", "most production",
           "least total consumption", "most total consumption", "least total production", "most total production",
           "least earlier consumption", "most earlier consumption", "least earlier production", "most earlier production">>
Ids(S) == {x.id : x \in S}
ObsInst(r, R, T, D, x) ==
  LET L == Levels(R.prof, T, D, x.t)  X == Totals(R.prof, T, x.t)  V == L \o X
      f == Flaws(R, L, X, x.t)  p == Problem(R, L, X, x.t)  w == r \o " at " \o ToString(x.t) \o ": "
  IN (IF Range(x.tr) = Ids(At(T, x.t)) /\ Range(x.st) = Ids({y \in T : y.lo = x.t}) /\ Range(x.en) = Ids({y \in T : y.hi = x.t}) THEN {}
      ELSE F(PTag(R.prof) \o ".transactions", w \o ToString(<<x.tr, x.st, x.en>>)))
     \cup {<<PTag(R.prof) \o (IF i <= 4 THEN ".level" ELSE ".total"), w \o Names[i] \o " " \o ToString(x.v[i]) \o " instead of " \o ToString(V[i])>> : i \in {i \in 1..16 : x.v[i] # V[i]}}
     \cup (IF x.f = f.any THEN {} ELSE F("Q02.flaw", w \o IF f.any THEN "not reported" ELSE "reported without a cause"))
     \cup (IF x.lo = f.lo /\ x.up = f.up THEN {} ELSE F("Q02.side", w \o ToString(<<x.lo, x.up>>) \o " instead of " \o ToString(<<f.lo, f.up>>)))
     \cup (IF x.lm = f.lm /\ x.um = f.um THEN {} ELSE F("Q02.magnitude", w \o ToString(<<x.lm, x.um>>) \o " instead of " \o ToString(<<f.lm, f.um>>)))
     \cup (IF x.x = (p # "") THEN {} ELSE F("Q02.violation", w \o IF x.x THEN "reported without a cause" ELSE "not reported"))
\* the pairs left to order at a flawed instant, among the transactions of the resource
Pairs(T, D, t) == {<<a.id, b.id>> : <<a, b>> \in {<<a, b>> \in T \X T : a.id # b.id /\ (t \in a.lo..a.hi \/ t \in b.lo..b.hi) /\ ~(a.hi < b.lo \/ b.hi < a.lo)
                         /\ D[a.p][b.p] >= 0 /\ ~(-D[b.p][a.p] >= 0)}}
ObsRes(m, D, r, o) ==
  LET R == m.res[r]  T == TLCEval(Trans(m, D, r))  J == Judged(m, D, r)  ts == {x.t : x \in Range(o.is)}
      bad == {t \in DOMAIN J : J[t].f.any}
      flawed == {x.k : x \in {x \in T : \E t \in bad : t \in x.lo..x.hi}}
  IN UNION {ObsInst(r, R, T, D, x) : x \in Range(o.is)}
     \cup (IF DOMAIN J \subseteq ts THEN {} ELSE F(PTag(R.prof) \o ".instants", r \o " has none at " \o ToString(DOMAIN J \ ts)))
     \cup (IF ts \ DOMAIN J = {} THEN {} ELSE F(PTag(R.prof) \o ".stale", r \o " still has " \o ToString(ts \ DOMAIN J)))
     \cup {<<PTag(R.prof) \o ".at", r \o ToString(x)>> : x \in {x \in Range(o.lv) :
            LET b == {t \in DOMAIN J : t <= x[1]} IN IF b = {} THEN <<x[2], x[3]>> # <<0, 0>> ELSE LET L == J[Mx(b)].l IN IF L[1] <= L[4] THEN <<x[2], x[3]>> # <<L[1], L[4]>> ELSE x[2] <= x[3]}}
     \cup (IF Range(o.fi) \cap DOMAIN J = bad THEN {} ELSE F("Q02.instants", r \o " lists " \o ToString(o.fi) \o " instead of " \o ToString(bad)))
     \cup (IF Range(o.to) = flawed /\ o.hto = (flawed # {}) THEN {} ELSE F("Q02.tokens", r \o " lists " \o ToString(o.to) \o " instead of " \o ToString(flawed)))
     \cup {<<"Q02.choices", r \o " at " \o ToString(c.t) \o ": " \o ToString(c.ps) \o " instead of " \o ToString(Pairs(T, D, c.t))>> : c \in {c \in Range(o.ch) :
            {p \in Range(c.ps) : p[1] \in Ids(T) /\ p[2] \in Ids(T)} # Pairs(T, D, c.t)}}
Obs(m0, e) ==
  LET tm == Time(m0)  D == tm.D
      qok == QOk(Quantities(m0))  m == TLCEval(Linked(m0))
      J == IF tm.ok THEN TLCEval([r \in DOMAIN m.res |-> Judged(m, D, r)]) ELSE EmptyFn
      viol == \E r \in DOMAIN J : \E t \in DOMAIN J[r] : J[r][t].p # ""
      ok == tm.ok /\ qok /\ (m.tol \/ ~viol)
      vt == {k \in DOMAIN m.tok : \E r \in DOMAIN J : On(m, k, r) /\ \E t \in DOMAIN J[r] : \E x \in Trans(m, D, r) : x.k = k /\ t \in x.lo..x.hi /\ J[r][t].p = (IF x.c THEN "con" ELSE "pro")}
  IN (IF e.con = ok THEN {} ELSE IF tm.ok THEN F("Q02.verdict", IF ok THEN "inconsistent without a violation" ELSE "a violation goes unnoticed") ELSE {})
     \cup (IF ~e.con \/ ~ok THEN {} ELSE UNION {ObsRes(m, D, r, e.rs[r]) : r \in DOMAIN m.res}
       \cup (IF Range(e.vt) = (IF m.tol THEN vt ELSE {}) THEN {} ELSE F("Q02.violated", ToString(e.vt) \o " instead of " \o ToString(vt))))
Lost(m, e) == e.op = "obs" /\ m.tol /\ ~Time(m).ok
Init == l = 1 /\ st = St0
Step(e) ==
  IF st.dead THEN st' = [st EXCEPT !.i = @ + 1]
  ELSE IF e.err # "" THEN Report("ERR." \o e.op, st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.i = @ + 1, !.dead = TRUE]
  ELSE LET m == Apply(st.m, e)
           bad == IF e.op = "obs" /\ ~Lost(m, e) THEN Obs(m, e) ELSE {}
       IN (\A b \in bad : Report(b[1], st.ep, st.i + 1, b[2])) /\ st' = [st EXCEPT !.i = @ + 1, !.m = m, !.dead = Lost(m, e) \/ bad # {}]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "begin" THEN st' = [St0 EXCEPT !.ep = e.ep, !.m.tol = ("tol" \in Range(e.a))] ELSE IF e.op = "end" THEN
              (IF e.err # "" /\ ~st.dead THEN Report("ERR.end", st.ep, st.i + 1, e.err) ELSE TRUE) /\ st' = [st EXCEPT !.dead = TRUE] ELSE Step(e)
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
