------------------------------- MODULE Res -------------------------------
(* Resources.  A token on a resource stands for transactions: a consumer or a producer one at its time,
   a user of a reusable one consumption at its start and one production at its end.  Times are known up
   to windows (the exact solution of the temporal constraints), quantities up to intervals.  At every
   instant the profile bounds what the level may be; limits make violations (certain) and flaws
   (possible).
   State m: [res, tok, con, tol]; res name -> [kind, det, prof, cap, lim, mic, mip, mc, mp] with cap and
   lim functions time -> <<lb, ub>>; tok id -> [pred, act, obj, q, qs, s, e, d, ss, es];
   con id -> <<a, b, lo, hi>> over points; qc id -> <<a, b>>: the quantity of a is at most that of b.  *)
EXTENDS Diff
M0 == [res |-> EmptyFn, tok |-> EmptyFn, con |-> EmptyFn, qc |-> EmptyFn, tol |-> FALSE]
None == [v |-> 0, on |-> FALSE]
Some(x) == [v |-> x, on |-> TRUE]
(* ------------------------------- operations ------------------------------- *)
\* productions and consumptions without a rate limit of their own are limited by the total allowed
AddRes(m, r, kind, det, prof, cl, cu, lo, up, mip, mic, mp, mc) ==
  LET rp == IF kind = "ru" THEN mic ELSE mip  tp == IF kind = "ru" THEN mc ELSE mp  u == IF kind = "ru" THEN cu ELSE up
  IN [m EXCEPT !.res = @ @@ (r :> [kind |-> kind, det |-> det, prof |-> prof, cap |-> (-INF :> <<cl, cu>>), lim |-> (-INF :> <<lo, u>>),
        mic |-> IF mic >= INF THEN mc ELSE mic, mip |-> IF rp >= INF THEN tp ELSE rp, mc |-> mc, mp |-> tp])]
AddTok(m, k, p, q, s, e, d, act) == [m EXCEPT !.tok = @ @@ (k :> [pred |-> p, act |-> act, obj |-> "", q |-> q, qs |-> None, s |-> s, e |-> e, d |-> d, ss |-> None, es |-> None])]
Fits(m, k, r) == m.res[r].kind = (IF m.tok[k].pred = "use" THEN "ru" ELSE "rv")
\* where the token is, once decided: with one resource of the kind there is no choice
Home(m, k) == LET R == {r \in DOMAIN m.res : Fits(m, k, r)} IN IF m.tok[k].obj # "" THEN m.tok[k].obj ELSE IF Cardinality(R) = 1 THEN CHOOSE r \in R : TRUE ELSE ""
On(m, k, r) == m.tok[k].act /\ Home(m, k) = r
(* ------------------------------- time ------------------------------- *)
Pt(m, k, s) == <<k, IF m.tok[k].pred = "use" THEN s ELSE "s">>
Win(p, lo, hi) == {<<O, p, hi>>, <<p, O, -lo>>}
TEdges(m) == UNION {LET t == m.tok[k] IN
      Win(<<k, "s">>, t.s[1], t.s[2]) \cup (IF t.ss.on THEN Win(<<k, "s">>, t.ss.v, t.ss.v) ELSE {})
      \cup (IF t.pred = "use" THEN Win(<<k, "e">>, t.e[1], t.e[2]) \cup (IF t.es.on THEN Win(<<k, "e">>, t.es.v, t.es.v) ELSE {})
              \cup {<< <<k, "s">>, <<k, "e">>, t.d[2]>>, << <<k, "e">>, <<k, "s">>, -t.d[1]>>} ELSE IF t.es.on THEN Win(<<k, "s">>, t.es.v, t.es.v) ELSE {}) : k \in DOMAIN m.tok}
   \cup UNION {LET c == m.con[i] IN (IF c[4] < INF THEN {<<c[1], c[2], c[4]>>} ELSE {}) \cup (IF c[3] > -INF THEN {<<c[2], c[1], -c[3]>>} ELSE {}) : i \in DOMAIN m.con}
TPts(m) == {O} \cup {Pt(m, k, "s") : k \in DOMAIN m.tok} \cup {Pt(m, k, "e") : k \in DOMAIN m.tok}
Time(m) == LET E == TLCEval(TEdges(m))  P == TPts(m)  ok == DOk(E, P)
           IN [ok |-> ok, D |-> IF ok THEN TLCEval([p \in P |-> DFrom(E, P, p)]) ELSE EmptyFn]
Lo(D, p) == -D[p][O]
Hi(D, p) == D[O][p]
(* ------------------------------- transactions ------------------------------- *)
QLo(t) == IF t.qs.on THEN t.qs.v ELSE t.q[1]
QHi(t) == IF t.qs.on THEN t.qs.v ELSE t.q[2]
\* what the quantities may be once the constraints between them are taken into account
QStep(m, q) == LET C == {m.qc[i] : i \in DOMAIN m.qc} IN
  [k \in DOMAIN q |-> <<Mx({q[k][1]} \cup {q[c[1]][1] : c \in {c \in C : c[2] = k}}), Mn({q[k][2]} \cup {q[c[2]][2] : c \in {c \in C : c[1] = k}})>>]
RECURSIVE QFix(_, _, _)
QFix(m, q, n) == IF n = 0 THEN q ELSE LET p == TLCEval(QStep(m, q)) IN IF p = q THEN q ELSE QFix(m, p, n - 1)
Quantities(m) == QFix(m, [k \in DOMAIN m.tok |-> <<QLo(m.tok[k]), QHi(m.tok[k])>>], Cardinality(DOMAIN m.tok) + 1)
QOk(q) == \A k \in DOMAIN q : q[k][1] <= q[k][2]
Linked(m) == IF m.qc = EmptyFn THEN m ELSE LET q == Quantities(m) IN [m EXCEPT !.tok = [k \in DOMAIN m.tok |-> [m.tok[k] EXCEPT !.q = q[k], !.qs = None]]]
Tr(k, side, c, t, D, p) == [id |-> k \o "." \o side, k |-> k, c |-> c, lb |-> QLo(t), ub |-> QHi(t), lo |-> Lo(D, p), hi |-> Hi(D, p), p |-> p]
Trans(m, D, r) == UNION {LET t == m.tok[k] IN
    IF t.pred = "use" THEN {Tr(k, "s", TRUE, t, D, <<k, "s">>), Tr(k, "e", FALSE, t, D, <<k, "e">>)}
    ELSE {Tr(k, "s", t.pred = "con", t, D, <<k, "s">>)} : k \in {k \in DOMAIN m.tok : On(m, k, r)}}
RECURSIVE Sum(_, _)
\* the sum of component f over a set of transactions
Sum(T, f) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN (IF f = "lb" THEN x.lb ELSE x.ub) + Sum(T \ {x}, f)
Instants(T) == {x.lo : x \in T} \cup {x.hi : x \in T}
At(T, t) == {x \in T : x.lo <= t /\ t <= x.hi}
Cons(T) == {x \in T : x.c}
Prod(T) == {x \in T : ~x.c}
Begun(T, t) == {x \in T : x.lo <= t}
Ended(T, t) == {x \in T : x.hi <= t}
(* ------------------------------- profiles ------------------------------- *)
Timetable(T, t) ==
  LET cb == Cons(Begun(T, t))  ce == Cons(Ended(T, t))  pb == Prod(Begun(T, t))  pe == Prod(Ended(T, t))
  IN <<Sum(pe, "lb") - Sum(cb, "ub"), Sum(pe, "ub") - Sum(cb, "lb"), Sum(pb, "lb") - Sum(ce, "ub"), Sum(pb, "ub") - Sum(ce, "lb")>>
\* the second and third are the extreme levels of the schedule that starts everything as early as possible
Grounded(T, t) ==
  LET cb == Cons(Begun(T, t))  ce == Cons(Ended(T, t))  pb == Prod(Begun(T, t))  pe == Prod(Ended(T, t))
  IN <<Sum(pe, "lb") - Sum(cb, "ub"), Sum(pb, "lb") - Sum(cb, "ub"), Sum(pb, "ub") - Sum(cb, "lb"), Sum(pb, "ub") - Sum(ce, "lb")>>
Worst(x, up) == IF up THEN (IF x.c THEN -x.lb ELSE x.ub) ELSE (IF x.c THEN -x.ub ELSE x.lb)
RECURSIVE SumW(_, _)
SumW(T, up) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Worst(x, up) + SumW(T \ {x}, up)
\* x cannot come after y
Before(D, x, y) == D[y.p][x.p] <= 0
\* extreme over every choice of which pending transactions have happened that respects what must precede what
Flow(T, D, t) ==
  LET done == Ended(T, t)  pend == {x \in T : x.lo <= t /\ t < x.hi}
      S == {s \in SUBSET pend : \A y \in s : \A x \in pend : Before(D, x, y) => x \in s}
  IN [lo |-> SumW(done, FALSE) + Mn({SumW(s, FALSE) : s \in S}), up |-> SumW(done, TRUE) + Mx({SumW(s, TRUE) : s \in S})]
FlowP(prof) == prof \in {"FlowProfile", "IncrementalFlowProfile"}
Levels(prof, T, D, t) == CASE prof = "TimetableProfile" -> Timetable(T, t)
   [] prof = "GroundedProfile" -> Grounded(T, t)
   [] OTHER -> LET f == Flow(T, D, t) IN <<f.lo, f.lo, f.up, f.up>>
\* rates and totals: min/max consumption and production at t, up to t, and before t (flow profiles keep none)
Totals(prof, T, t) ==
  IF FlowP(prof) THEN [i \in 1..12 |-> 0]
  ELSE LET A == At(T, t)  S == {x \in A : x.lo = x.hi}  B == Begun(T, t)  F == Ended(T, t)  G == {x \in T : x.hi < t}
       IN <<Sum(Cons(S), "lb"), Sum(Cons(A), "ub"), Sum(Prod(S), "lb"), Sum(Prod(A), "ub"),
            Sum(Cons(F), "lb"), Sum(Cons(B), "ub"), Sum(Prod(F), "lb"), Sum(Prod(B), "ub"),
            Sum(Cons(G), "lb"), Sum(Cons(G), "ub"), Sum(Prod(G), "lb"), Sum(Prod(G), "ub")>>
(* ------------------------------- violations and flaws ------------------------------- *)
AtTime(f, t) == f[Mx({x \in DOMAIN f : x <= t})]
\* what is certainly wrong at t, the first of the kinds in order of precedence
Problem(R, L, X, t) ==
  LET cap == AtTime(R.cap, t)  lim == AtTime(R.lim, t)
      open == R.det = "OpenWorldFVDetector"
      ub == IF open THEN XAdd(cap[2] + L[4], IF R.mp >= INF THEN INF ELSE R.mp - X[7]) ELSE XAdd(cap[2], L[4])
      lb == IF open THEN XAdd(cap[1] + L[1], IF R.mc >= INF THEN -INF ELSE X[5] - R.mc) ELSE XAdd(cap[1], L[1])
  IN IF X[5] > R.mc THEN "con" ELSE IF X[7] > R.mp THEN "pro" ELSE IF X[1] > R.mic THEN "con" ELSE IF X[3] > R.mip THEN "pro"
     ELSE IF ub < lim[1] THEN "con" ELSE IF lb > lim[2] THEN "pro" ELSE ""
\* what may go wrong at t
Flaws(R, L, X, t) ==
  LET cap == AtTime(R.cap, t)  lim == AtTime(R.lim, t)  clo == R.det = "ClosedWorldFVDetector"
      lb == cap[1] + (IF clo THEN L[1] ELSE L[2])  ub == cap[2] + (IF clo THEN L[4] ELSE L[3])
      lo == lb < lim[1]  up == ub > lim[2]
  IN [any |-> lo \/ up \/ X[6] > R.mc \/ X[8] > R.mp \/ X[2] > R.mic \/ X[4] > R.mip,
      lo |-> lo, up |-> up, lm |-> IF lo THEN lim[1] - lb ELSE 0, um |-> IF up THEN ub - lim[2] ELSE 0]
Judged(m, D, r) == LET R == m.res[r]  T == TLCEval(Trans(m, D, r)) IN
   TLCEval([t \in Instants(T) |-> LET L == TLCEval(Levels(R.prof, T, D, t))  X == Totals(R.prof, T, t) IN [l |-> L, x |-> X, p |-> Problem(R, L, X, t), f |-> Flaws(R, L, X, t)]])
==========================================================================
