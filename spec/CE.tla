-------------------------------- MODULE CE --------------------------------
(* The constraint engine's observable state: a network of variables (base domain, specified value,
   deactivation count) and constraints (type, scope, deactivation count), the mathematical meaning of
   every constraint type of the library, and the operations that change the network.              *)
EXTENDS VUtil
Box == 6                           \* sampling radius for unbounded intervals

(* ---------- domains ---------- *)
IntervalD(k, lo, hi) == [k |-> k, e |-> FALSE, o |-> FALSE, lo |-> lo, hi |-> hi, vs |-> {}]
EnumD(k, open, vs) == [k |-> k, e |-> TRUE, o |-> open, lo |-> 0, hi |-> 0, vs |-> vs]
ParseDom(e, i) ==
  LET k == e.a[i] IN
  IF k \in {"i", "r"} THEN IntervalD(k, NumTok(e, i + 1), NumTok(e, i + 2))
  ELSE IF k = "b" THEN (IF Len(e.a) > i THEN IntervalD(k, e.n[i + 1], e.n[i + 2]) ELSE IntervalD(k, 0, 1))
  ELSE EnumD(k, k \in {"oe", "of", "os", "ot"}, {e.n[j] : j \in (i + 1)..Len(e.a)})
InDom(D, x) == IF D.e THEN x \in D.vs ELSE D.lo <= x /\ x <= D.hi
IsSing(D) == ~D.o /\ (IF D.e THEN Cardinality(D.vs) = 1 ELSE D.lo = D.hi)
TheVal(D) == IF D.e THEN CHOOSE x \in D.vs : TRUE ELSE D.lo
(* sampled members: every integer member when small, the box and the ends otherwise *)
Members(D) ==
  IF D.e THEN D.vs
  ELSE IF D.hi - D.lo <= 2 * Box THEN D.lo..D.hi
  ELSE {x \in (-Box)..Box : D.lo <= x /\ x <= D.hi} \cup (IF D.lo > -INF THEN {D.lo} ELSE {}) \cup (IF D.hi < INF THEN {D.hi} ELSE {})
SubDom(A, B) ==                    \* A is a subset of B (closed domains)
  IF A.e THEN \A x \in A.vs : InDom(B, x)
  ELSE IF B.e THEN A.hi - A.lo < 100 /\ \A x \in A.lo..A.hi : x \in B.vs
  ELSE B.lo <= A.lo /\ A.hi <= B.hi
MeetDom(A, B) ==                   \* the base domain A restricted to B
  IF A.e THEN [A EXCEPT !.vs = {x \in A.vs : InDom(B, x)}]
  ELSE IF B.e THEN LET S == {x \in B.vs : InDom(A, x)} IN [A EXCEPT !.lo = Mn(S), !.hi = Mx(S)]
  ELSE [A EXCEPT !.lo = Max2(A.lo, B.lo), !.hi = Min2(A.hi, B.hi)]

(* ---------- what the constraint types mean (a = values in scope order) ---------- *)
AllSame(a) == \A i \in 1..Len(a) : a[i] = a[1]
AllDiffer(a) == \A i, j \in 1..Len(a) : i # j => a[i] # a[j]
Iff(b, p) == (b # 0) = p
CountZ(a) == Cardinality({i \in 1..Len(a) : a[i] = 0})
RECURSIVE PowI(_, _)
PowI(a, n) == IF n <= 0 THEN 1 ELSE a * PowI(a, n - 1)
SetArg(S, x) == x \in S
Means(t, a) ==
  CASE t = "eq" -> AllSame(a)
    [] t = "neq" -> a[1] # a[2]
    [] t = "leq" -> a[1] <= a[2]
    [] t = "lt" -> a[1] < a[2]
    [] t = "addEq" -> a[1] + a[2] = a[3]
    [] t \in {"multEq", "mulEq"} -> a[1] * a[2] = a[3]
    [] t = "divEq" -> a[2] * a[3] = a[1]
    [] t = "allDiff" -> AllDiffer(a)
    [] t = "absVal" -> a[1] = AbsI(a[2])
    [] t = "neg" -> a[1] = -a[2]
    [] t = "condEq" -> Iff(a[1], AllSame(Tail(a)))
    [] t = "condAllDiff" -> Iff(a[1], AllDiffer(Tail(a)))
    [] t = "countZeroes" -> a[1] = CountZ(Tail(a))
    [] t = "countNonZeroes" -> a[1] = Len(a) - 1 - CountZ(Tail(a))
    [] t = "eqMaximum" -> a[1] = Mx(Range(Tail(a)))
    [] t = "eqMinimum" -> a[1] = Mn(Range(Tail(a)))
    [] t \in {"max", "allMax"} -> a[Len(a)] = Mx({a[i] : i \in 1..(Len(a) - 1)})
    [] t \in {"min", "allMin"} -> a[Len(a)] = Mn({a[i] : i \in 1..(Len(a) - 1)})
    [] t = "eqSum" -> a[1] = SumSeq(Tail(a))
    [] t = "eqProduct" -> a[1] = ProdSeq(Tail(a))
    [] t = "or" -> \E i \in 1..Len(a) : a[i] # 0
    [] t = "testEq" -> Iff(a[1], a[2] = a[3])
    [] t = "testNeq" -> Iff(a[1], a[2] # a[3])
    [] t = "testLessThan" -> Iff(a[1], a[2] < a[3])
    [] t = "testLeq" -> Iff(a[1], a[2] <= a[3])
    [] t = "testAnd" -> Iff(a[1], a[2] # 0 /\ a[3] # 0)
    [] t = "testOr" -> Iff(a[1], a[2] # 0 \/ a[3] # 0)
    [] t = "withinBounds" -> a[2] <= a[1] /\ a[1] <= a[3]
    [] t = "maxf" -> a[1] = Max2(a[2], a[3])
    [] t = "minf" -> a[1] = Min2(a[2], a[3])
    [] t = "abs" -> a[1] = AbsI(a[2])
    [] t = "pow" -> a[1] = PowI(a[2], a[3])
    [] t = "mod" -> a[3] # 0 /\ (a[3] > 0 => a[1] = a[2] % a[3])
    [] t \in {"floor", "ceil"} -> a[1] = a[2]      \* at integers
    [] t = "sqrt" -> a[1] >= 0 /\ a[1] * a[1] = a[2]
    [] t = "diffSquare" -> a[3] = (a[1] - a[2]) * (a[1] - a[2])
    [] t = "distanceSquares" -> a[3] >= 0 /\ a[3] * a[3] = a[1] + a[2]
    [] t = "calcDistance" -> a[1] >= 0 /\ a[1] * a[1] = (a[2] - a[4]) * (a[2] - a[4]) + (a[3] - a[5]) * (a[3] - a[5])
    [] OTHER -> TRUE
(* instances whose meaning the library leaves open: they count neither as solutions nor as contradictions *)
DontCare(t, a) ==
  CASE t = "divEq" -> a[2] = 0
    [] t = "pow" -> a[3] \notin 0..4 \/ AbsI(a[2]) > 12
    [] t = "mod" -> a[2] < 0 \/ a[3] < 0
    [] OTHER -> FALSE
(* types whose meaning is fully stated above, so a false instance is a contradiction, and those for which an
   integer tuple satisfying the formula is guaranteed to be a solution *)
Known(t) == t \in {"eq", "neq", "leq", "lt", "addEq", "multEq", "mulEq", "divEq", "allDiff", "absVal", "neg", "condEq",
  "condAllDiff", "countZeroes", "countNonZeroes", "eqMaximum", "eqMinimum", "max", "allMax", "min", "allMin", "eqSum",
  "eqProduct", "or", "testEq", "testNeq", "testLessThan", "testLeq", "testAnd", "testOr", "withinBounds", "maxf", "minf",
  "abs", "pow", "mod", "floor", "ceil", "sqrt", "diffSquare", "distanceSquares", "calcDistance"}

(* ---------- the network ---------- *)
(* t: variables whose domains may still reflect a constraint that was suspended (deactivated) after it had
   taken part in propagation: deactivation stops further inference, it does not retract what was inferred *)
NoNet == [v |-> EmptyFn, c |-> EmptyFn, t |-> {}]
VarR(D, canSpec) == [b |-> D, sp |-> IsSing(D), sv |-> IF IsSing(D) THEN TheVal(D) ELSE 0, da |-> 0, ui |-> ~canSpec]
VDeact(net, v) == net.v[v].da
CDeact(net, c) == net.c[c].da + SumSeq([i \in 1..Len(net.c[c].s) |-> VDeact(net, net.c[c].s[i])])
Active(net) == {c \in DOMAIN net.c : CDeact(net, c) = 0}

NewVar(net, n, D, canSpec) == [net EXCEPT !.v = (n :> VarR(D, canSpec)) @@ @]
DelVar(net, n) == [net EXCEPT !.v = Without(@, n)]
Post(net, id, t, s) == [net EXCEPT !.c = (id :> [t |-> t, s |-> s, da |-> 0]) @@ @]
Unpost(net, id) == [net EXCEPT !.c = Without(@, id)]
Specify(net, n, x) == [net EXCEPT !.v[n].sp = TRUE, !.v[n].sv = x]
Reset(net, n) == [net EXCEPT !.v[n].sp = FALSE, !.v[n].sv = 0]
AutoSpec(vr) == IF IsSing(vr.b) /\ ~vr.sp THEN [vr EXCEPT !.sp = TRUE, !.sv = TheVal(vr.b)] ELSE vr
Close(net, n) == [net EXCEPT !.v[n] = AutoSpec([@ EXCEPT !.b.o = FALSE])]
Open(net, n) == [net EXCEPT !.v[n] = IF IsSing(@.b) THEN [@ EXCEPT !.b.o = TRUE, !.sp = FALSE, !.sv = 0] ELSE [@ EXCEPT !.b.o = TRUE]]
Insert(net, n, x) == [net EXCEPT !.v[n].b.vs = @ \cup {x}]
Remove(net, n, x) == [net EXCEPT !.v[n].b.vs = @ \ {x}]
Restrict(net, n, D) ==
  LET vr == net.v[n] IN
  IF vr.b.o THEN [net EXCEPT !.v[n] = AutoSpec([vr EXCEPT !.b = [D EXCEPT !.k = vr.b.k]])]
  ELSE IF SubDom(vr.b, D) THEN net
  ELSE [net EXCEPT !.v[n] = AutoSpec([vr EXCEPT !.b = MeetDom(vr.b, D)])]

Connected(net, V) == LET RECURSIVE G(_)  G(W) == LET X == W \cup UNION {Range(net.c[c].s) : c \in {c \in DOMAIN net.c : Range(net.c[c].s) \cap W # {}}} IN IF X = W THEN W ELSE G(X) IN G(V)
\* types made of other constraints, some of which may stay active when a variable of the scope is deactivated
Composite(t) == t \notin {"eq", "neq", "leq", "lt", "addEq", "multEq", "mulEq", "testEq", "testNeq", "testLessThan", "testLeq", "absVal", "sqrt"}
Suspend(old, new) == LET gone == {c \in Active(old) : c \in DOMAIN new.c /\ CDeact(new, c) > 0}
                         part == {c \in DOMAIN new.c : CDeact(new, c) > 0 /\ Composite(new.c[c].t)}
                     IN [new EXCEPT !.t = Connected(new, (@ \cup UNION {Range(new.c[c].s) : c \in gone \cup part}) \cap DOMAIN new.v)]

(* ---------- solutions ---------- *)
Cand(net, v) == IF net.v[v].sp THEN {net.v[v].sv} ELSE Members(net.v[v].b)
SatBy(net, c, f) == LET a == [i \in 1..Len(net.c[c].s) |-> f[net.c[c].s[i]]] IN ~DontCare(net.c[c].t, a) /\ Means(net.c[c].t, a)
Contradicts(t, a) == ~DontCare(t, a) /\ ~Means(t, a)
RECURSIVE Extend(_, _, _, _)
Extend(net, todo, S, C) ==         \* S: partial assignments, C: constraints not yet checked
  IF todo = {} \/ S = {} THEN S
  ELSE LET done == IF S = {} THEN {} ELSE DOMAIN (CHOOSE f \in S : TRUE)
           touching == {v \in todo : \E c \in C : v \in Range(net.c[c].s) /\ Range(net.c[c].s) \cap done # {}}
           pool == IF touching # {} THEN touching ELSE todo
           v == CHOOSE v \in pool : \A w \in pool : Cardinality(Cand(net, v)) <= Cardinality(Cand(net, w))
           ready == {c \in C : Range(net.c[c].s) \subseteq (done \cup {v})}
       IN Extend(net, todo \ {v},
                 {g \in {f @@ (v :> x) : f \in S, x \in Cand(net, v)} : \A c \in ready : SatBy(net, c, g)}, C \ ready)
RECURSIVE Component(_, _, _)
Component(net, C, V) ==            \* variables connected to V through the constraints C
  LET W == V \cup UNION {Range(net.c[c].s) : c \in {c \in C : Range(net.c[c].s) \cap V # {}}}
  IN IF W = V THEN V ELSE Component(net, C, W)
RECURSIVE Components(_, _, _)
Components(net, C, V) == IF V = {} THEN {} ELSE LET K == Component(net, C, {CHOOSE v \in V : TRUE}) IN {K} \cup Components(net, C, V \ K)
SolsOf(net, C, K) == Extend(net, K, {EmptyFn}, {c \in C : Range(net.c[c].s) \subseteq K})
===========================================================================
