------------------------------ MODULE VUtil ------------------------------
(* Small helpers shared by every specification of /verif/spec. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
INF == 1000000                     \* the drivers report anything infinite as +-INF
Range(s) == {s[i] : i \in DOMAIN s}
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
Mn(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
Has(r, f) == f \in DOMAIN r
Tail2(s, i) == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdSeq(Tail(s))
RECURSIVE SumFnOn(_, _)
SumFnOn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFnOn(f, S \ {x})
SumFn(f) == SumFnOn(f, DOMAIN f)
EmptyFn == [x \in {} |-> 0]
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
NumTok(e, i) == IF e.a[i] \in {"inf", "+inf"} THEN INF ELSE IF e.a[i] = "-inf" THEN -INF ELSE e.n[i]
(* extended addition *)
XAdd(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE IF a <= -INF \/ b <= -INF THEN -INF ELSE a + b
B2I(b) == IF b THEN 1 ELSE 0
(* set of all sequences without repetition over S *)
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
==========================================================================
