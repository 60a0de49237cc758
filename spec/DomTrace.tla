----------------------------- MODULE DomTrace -----------------------------
(* Judges what the real domains answered and became (C05). *)
EXTENDS Dom, VTrace
VARIABLES l, st
Rep(o) == [k |-> o.k, open |-> o.open, iv |-> o.iv, lb |-> o.lb, ub |-> o.ub, vals |-> IF o.iv THEN {} ELSE Range(o.vals)]
N(e, i) == NumTok(e, i)
\* the domain a "mk" line asks for
Made(e) == LET k == e.a[2]  iv == k \in {"int", "bool", "real"}  V == IF iv THEN {} ELSE {N(e, i) : i \in 4 .. Len(e.a)} IN
  [k |-> k, iv |-> iv, open |-> ~iv /\ e.a[3] = "o", lb |-> IF iv THEN N(e, 3) ELSE 0, ub |-> IF iv THEN N(e, 4) ELSE 0, vals |-> V]
\* every observer agrees with the set
Seen(o) == LET d == Rep(o)  e == IsEmpty(d) IN
  /\ o.open = ~o.closed /\ o.en = ~o.iv /\ o.iv = (o.k \in {"int", "bool", "real"}) /\ o.fin = ~o.ninf /\ o.same /\ o.copy
  /\ o.empty = e /\ ((d.iv /\ e) \/ o.sing = Single(d)) /\ (o.fin = Finite(d)) /\ o.size = Size(d)
  /\ (~d.iv => o.n = Cardinality(d.vals) /\ ((~e /\ o.k \notin {"str", "sym"}) => o.lb = Mn(d.vals) /\ o.ub = Mx(d.vals)))
  /\ ((d.iv /\ o.listed) => Range(o.vals) = Vals(d) /\ o.n = Size(d))
  /\ ((~e /\ Single(d)) => o.sv = Lb(d))
  /\ ((~e /\ o.k \notin {"str", "sym"}) => o.inf = (Lb(d) = -INF \/ Ub(d) = INF) /\ o.bf = (~d.open /\ Lb(d) > -INF /\ Ub(d) < INF))
Bad(c, tag, e) == IF c THEN {} ELSE {<<"C05." \o tag, ToString(e.a)>>}
Unchanged(e, s) == /\ ((Has(e, "A") /\ e.a[1] \in DOMAIN s) => Same(Rep(e.A), s[e.a[1]]))
                   /\ ((Has(e, "B") /\ e.a[2] \in DOMAIN s) => Same(Rep(e.B), s[e.a[2]]))
BSame(e, s) == Same(Rep(e.B), s[e.a[2]])
Comparable(a, b) == LET num == {"int", "bool", "real", "num", "inum"} IN (a \in num) = (b \in num) /\ (a = "str") = (b = "str")
Judge(s, e) ==
  IF e.op = "mk" THEN Bad(Same(Rep(e.A), Made(e)) /\ e.A.k = e.a[2], "made", e) \cup Bad(Seen(e.A), "observers", e)
  ELSE
  (IF Has(e, "cmp") THEN Bad(e.cmp = e.cmp2 /\ e.cmp = Comparable(e.ka, e.kb), "comparable", e) ELSE {}) \cup
  (IF Has(e, "skip") THEN {}
   ELSE Bad((Has(e, "A") => Seen(e.A)) /\ (Has(e, "B") => Seen(e.B)), "observers", e) \cup
   (LET a == s[e.a[1]]  na == Rep(e.A)  v == N(e, 2)  b == s[e.a[2]]  nb == Rep(e.B) IN
    CASE e.op = "obs" -> Bad(Unchanged(e, s), "stable", e)
      [] e.op = "isect" -> Bad(IsectOk(na, a, b, e.r) /\ BSame(e, s), "intersect", e)
      [] e.op = "eq" -> Bad(EquateOk(na, nb, a, b, e.r), "equate", e)
      [] e.op = "diff" -> Bad((e.threw \/ BSame(e, s)) /\ ((a.k = "real" /\ b.k \in {"int", "bool"}) \/ DiffOk(na, a, b, e.r, e.threw)), "difference", e)
      [] e.op = "sub" -> Bad(Unchanged(e, s) /\ e.r = Sub(a, b), "subset", e)
      [] e.op = "ints" -> Bad(Unchanged(e, s) /\ e.r = Inter(a, b), "intersects", e)
      [] e.op = "equal" -> Bad(Unchanged(e, s) /\ e.r = Equal(a, b) /\ e.ne = ~e.r, "equal", e)
      [] e.op \in {"relax", "reset"} ->
           Bad(BSame(e, s) /\ (IF (e.op = "reset" /\ Same(a, b)) \/ (IsEmpty(b) /\ ~b.open) \/ ~(IsEmpty(a) \/ Sub(a, b)) THEN Same(na, a)
                               ELSE IF a.iv THEN Same(na, b) ELSE na.vals = b.vals /\ na.open = (a.open \/ b.open)), "relax", e)
      [] e.op = "copy" -> Bad(Same(na, a) /\ Same(nb, a) /\ nb.k = a.k, "copy", e)
      [] e.op = "assign" -> Bad(BSame(e, s) /\ Same(na, [b EXCEPT !.open = na.open]), "assign", e)
      [] e.op = "isectb" -> LET lo == N(e, 2)  hi == N(e, 3)  w == [k |-> "real", open |-> FALSE, iv |-> TRUE, lb |-> lo, ub |-> hi, vals |-> {}] IN
           Bad(IF lo > hi THEN IsEmpty(na) /\ e.r ELSE IsectOk(na, a, w, e.r) /\ (a.iv => (IF Meet(a, w).e THEN IsEmpty(na) ELSE na.lb = Meet(a, w).lb /\ na.ub = Meet(a, w).ub)), "intersect-bounds", e)
      [] e.op = "empty" -> Bad(IsEmpty(na) /\ na.open = a.open, "empty", e)
      [] e.op = "open" -> Bad(na.open /\ na.vals = a.vals, "open", e)
      [] e.op = "close" -> Bad(~na.open /\ na.vals = a.vals, "close", e)
      [] e.op = "mem" -> Bad(Unchanged(e, s) /\ e.r = Mem(a, v), "member", e)
      [] e.op = "remove" ->
           Bad(IF ~a.iv THEN ~e.threw /\ na.vals = a.vals \ {v} /\ na.open = a.open
               ELSE IF ~Mem(a, v) THEN ~e.threw /\ Same(na, a)
               ELSE IF v \notin {a.lb, a.ub} THEN e.threw
               ELSE ~e.threw /\ (IF a.lb = a.ub THEN IsEmpty(na) ELSE IF a.k = "real" THEN Same(na, a) ELSE Same(na, IF v = a.lb THEN [a EXCEPT !.lb = @ + 4] ELSE [a EXCEPT !.ub = @ - 4])), "remove", e)
      [] e.op = "insert" ->
           Bad(IF ~a.iv THEN ~e.threw /\ na.vals = a.vals \cup {v} /\ na.open = a.open
               ELSE IF Mem(a, v) THEN ~e.threw /\ Same(na, a)
               ELSE IF IsEmpty(a) THEN ~e.threw /\ Same(na, [a EXCEPT !.lb = v, !.ub = v])
               ELSE IF v = a.lb - 4 THEN ~e.threw /\ Same(na, [a EXCEPT !.lb = v]) ELSE IF v = a.ub + 4 THEN ~e.threw /\ Same(na, [a EXCEPT !.ub = v]) ELSE e.threw, "insert", e)
      [] e.op = "set" -> Bad(~na.open /\ (IF Mem(a, v) THEN Lb(na) = v /\ Single(na) ELSE IsEmpty(na)), "set", e)
      [] e.op = "relaxv" -> Bad(~na.open \/ (a.open /\ ~IsEmpty(a)), "relax-value", e) \cup Bad(Single(na) /\ Lb(na) = v, "relax-value", e)
      [] OTHER -> {}))
Apply(s, e) ==
  IF Has(e, "skip") /\ e.op # "mk" THEN s
  ELSE LET s1 == IF Has(e, "A") THEN (e.a[1] :> Rep(e.A)) @@ s ELSE s IN IF Has(e, "B") THEN (e.a[2] :> Rep(e.B)) @@ s1 ELSE s1
Init == l = 1 /\ st = [ep |-> "", i |-> 0, dead |-> FALSE, d |-> EmptyFn]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN st' = [ep |-> e.ep, i |-> 0, dead |-> FALSE, d |-> EmptyFn]
           ELSE IF e.op = "end" \/ st.dead THEN st' = [st EXCEPT !.i = @ + 1]
           ELSE IF e.err # "" THEN Report("ERR." \o e.op, st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.dead = TRUE]
           ELSE /\ \A b \in Judge(st.d, e) : Report(b[1], st.ep, st.i + 1, b[2])
                /\ st' = [st EXCEPT !.i = @ + 1, !.d = Apply(@, e)]
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
