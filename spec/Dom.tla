------------------------------- MODULE Dom -------------------------------
(* Domains as the sets they denote (C05).  Numbers count quarters; INF is infinity.
   A domain: [k, open, iv, lb, ub, vals]: an interval (iv) of whole numbers ("int", "bool") or of reals
   ("real"), or an enumeration of vals ("num", "inum", "str", "sym"), possibly open to further values.  *)
EXTENDS VUtil
Whole(k) == k \in {"int", "bool"}
CeilQ(v) == IF AbsI(v) >= INF THEN v ELSE -(((-v) \div 4) * 4)
FloorQ(v) == IF AbsI(v) >= INF THEN v ELSE (v \div 4) * 4
IsEmpty(d) == IF d.iv THEN d.lb > d.ub ELSE d.vals = {}
Mem(d, v) == IF d.iv THEN d.lb <= v /\ v <= d.ub /\ (Whole(d.k) => v % 4 = 0) ELSE v \in d.vals \/ (d.k = "str" /\ d.open)
Single(d) == IF d.iv THEN d.lb = d.ub ELSE Cardinality(d.vals) = 1
Finite(d) == ~d.iv \/ IsEmpty(d) \/ (IF Whole(d.k) THEN d.lb > -INF /\ d.ub < INF ELSE d.lb = d.ub /\ AbsI(d.lb) < INF)
Size(d) == IF ~d.iv THEN Cardinality(d.vals) ELSE IF IsEmpty(d) THEN 0 ELSE IF Single(d) THEN 1
           ELSE IF Finite(d) THEN (d.ub - d.lb) \div 4 + 1 ELSE INF
Lb(d) == IF d.iv THEN d.lb ELSE Mn(d.vals)
Ub(d) == IF d.iv THEN d.ub ELSE Mx(d.vals)
\* the values of a small finite domain
Vals(d) == IF ~d.iv THEN d.vals ELSE IF d.k = "real" THEN (IF d.lb = d.ub THEN {d.lb} ELSE {}) ELSE {4 * i : i \in ((d.lb + 3) \div 4) .. (d.ub \div 4)}
\* --- exact intersection of two closed domains: NULL, or an enumeration, or an interval [whole, lb, ub]
Meet(a, b) ==
  IF IsEmpty(a) \/ IsEmpty(b) THEN [e |-> TRUE]
  ELSE IF ~a.iv \/ ~b.iv THEN
    LET S == IF a.iv THEN {v \in b.vals : Mem(a, v)} ELSE {v \in a.vals : Mem(b, v)} IN
    IF S = {} THEN [e |-> TRUE] ELSE [e |-> FALSE, lb |-> Mn(S), ub |-> Mx(S), S |-> S]
  ELSE LET w == Whole(a.k) \/ Whole(b.k)  l == Max2(a.lb, b.lb)  u == Min2(a.ub, b.ub)
           lo == IF w THEN CeilQ(l) ELSE l  hi == IF w THEN FloorQ(u) ELSE u
       IN IF lo > hi THEN [e |-> TRUE] ELSE [e |-> FALSE, lb |-> lo, ub |-> hi, S |-> {}]
Same(a, b) == a.open = b.open /\ (IF a.iv THEN (IsEmpty(a) /\ IsEmpty(b)) \/ (a.lb = b.lb /\ a.ub = b.ub) ELSE a.vals = b.vals)
\* an interval may keep more than the intersection when that has holes or ends it cannot express, but never
\* loses a common value, never grows, and never reaches beyond the bounds of the other domain
Within(new, a, b, m) ==
  /\ (~m.e => ~IsEmpty(new) /\ new.lb <= m.lb /\ m.ub <= new.ub)
  /\ (IsEmpty(new) \/ (new.lb >= Max2(a.lb, Lb(b)) /\ new.ub <= Min2(a.ub, Ub(b)) /\ (Whole(a.k) => new.lb % 4 = 0 /\ new.ub % 4 = 0)))
IsectOk(new, a, b, r) ==
  IF b.open /\ a.open THEN Same(new, a) /\ ~r
  ELSE IF a.open THEN ~new.open /\ new.vals = b.vals /\ r
  ELSE IF b.open THEN Same(new, a) /\ ~r
  ELSE LET m == Meet(a, b) IN
       /\ ~new.open /\ r = ~Same(new, a)
       /\ IF a.iv THEN Within(new, a, b, m) ELSE new.vals = (IF m.e THEN {} ELSE m.S)
EquateOk(na, nb, a, b, r) ==
  /\ r = ~(Same(na, a) /\ Same(nb, b))
  /\ IF a.open /\ b.open THEN Same(na, a) /\ Same(nb, b)
     ELSE IF a.open THEN Same(nb, b) /\ na.vals = b.vals /\ ~na.open
     ELSE IF b.open THEN Same(na, a) /\ nb.vals = a.vals /\ ~nb.open
     ELSE LET m == Meet(a, b) IN
       /\ ~na.open /\ ~nb.open
       /\ IF m.e THEN (IsEmpty(na) \/ IsEmpty(nb)) /\ (~IsEmpty(a) /\ ~IsEmpty(b) => ~(IsEmpty(na) /\ IsEmpty(nb)))
          ELSE /\ (~a.iv => na.vals = m.S) /\ (~b.iv => nb.vals = m.S)
               /\ (a.iv => Within(na, a, b, m)) /\ (b.iv => Within(nb, b, a, m))
               /\ ((a.iv /\ ~b.iv) => na.lb = m.lb /\ na.ub = m.ub) /\ ((b.iv /\ ~a.iv) => nb.lb = m.lb /\ nb.ub = m.ub)
               /\ ((a.iv /\ b.iv /\ Whole(a.k)) => na.lb = m.lb /\ na.ub = m.ub) /\ ((a.iv /\ b.iv /\ Whole(b.k)) => nb.lb = m.lb /\ nb.ub = m.ub)
Sub(a, b) ==
  IF b.open THEN TRUE ELSE IF a.open THEN FALSE ELSE IF IsEmpty(a) THEN TRUE ELSE IF IsEmpty(b) THEN FALSE
  ELSE IF ~a.iv THEN \A v \in a.vals : Mem(b, v)
  ELSE IF Single(a) THEN Mem(b, a.lb)
  ELSE IF ~b.iv THEN Whole(a.k) /\ AbsI(a.lb) < INF /\ AbsI(a.ub) < INF /\ Size(a) <= Cardinality(b.vals) /\ Vals(a) \subseteq b.vals
  ELSE (Whole(b.k) => Whole(a.k)) /\ b.lb <= a.lb /\ a.ub <= b.ub
Inter(a, b) == a.open \/ b.open \/ ~Meet(a, b).e
Equal(a, b) == a.open = b.open /\ (IF a.open THEN a.vals = b.vals ELSE Sub(a, b) /\ Sub(b, a))
\* difference: for an interval, what is left has to be one piece
RECURSIVE Strip(_, _)
Strip(d, S) == IF IsEmpty(d) THEN d ELSE IF d.lb \in S THEN Strip([d EXCEPT !.lb = @ + 4], S) ELSE IF d.ub \in S THEN Strip([d EXCEPT !.ub = @ - 4], S) ELSE d
\* returns [split, left, right] for interval a minus interval b; reals are judged to the nearest quarter
Cut(a, b) == LET bl == IF Whole(a.k) THEN CeilQ(b.lb) ELSE b.lb  bu == IF Whole(a.k) THEN FloorQ(b.ub) ELSE b.ub  g == IF Whole(a.k) THEN 4 ELSE 0
  IN [none |-> bl > bu \/ bu < a.lb \/ bl > a.ub, l |-> [a EXCEPT !.ub = bl - g], hasl |-> bl > a.lb, r |-> [a EXCEPT !.lb = bu + g], hasr |-> bu < a.ub]
DiffOk(new, a, b, r, threw) ==
  IF ~a.iv THEN ~threw /\ new.vals = {v \in a.vals : ~Mem(b, v)} /\ r = (new.vals # a.vals)
  ELSE IF ~b.iv THEN
    IF Whole(a.k) THEN LET w == Strip(a, b.vals)  inner == \E v \in b.vals : Mem(w, v) IN
                       threw = inner /\ (~threw => Same(new, w) /\ r = ~Same(w, a))
    ELSE ~threw /\ r = (Mem(b, a.lb) \/ Mem(b, a.ub)) /\ (IF Single(a) /\ r THEN IsEmpty(new) ELSE Same(new, a))
  ELSE LET c == Cut(a, b) IN
    IF c.none THEN ~threw /\ ~r /\ Same(new, a)
    ELSE IF c.hasl /\ c.hasr THEN threw
    ELSE ~threw /\ r /\ (IF c.hasl THEN Same(new, c.l) ELSE IF c.hasr THEN Same(new, c.r) ELSE IsEmpty(new))
==========================================================================
