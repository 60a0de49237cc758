------------------------------- MODULE Diff -------------------------------
(* Systems of difference constraints over integers, by single-source shortest paths.
   E is a set of edges <<a, b, w>>: value(b) - value(a) <= w.                                       *)
EXTENDS VUtil
O == <<"", "o">>                    \* the origin: value 0
DAdd(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
RECURSIVE BF(_, _, _, _)
\* relaxes until nothing changes or n rounds are over; n rounds exhausted: a negative cycle
BF(d, P, In, n) == LET e == TLCEval([p \in P |-> Mn({d[p]} \cup {DAdd(d[x[1]], x[3]) : x \in In[p]})])
                   IN IF e = d THEN [d |-> d, ok |-> TRUE] ELSE IF n = 0 THEN [d |-> d, ok |-> FALSE] ELSE BF(e, P, In, n - 1)
InEdges(E, P) == TLCEval([p \in P |-> {x \in E : x[2] = p}])
Rev(E) == {<<x[2], x[1], x[3]>> : x \in E}
\* no negative cycle
DOk(E, P) == BF([p \in P |-> 0], P, InEdges(E, P), Cardinality(P) + 1).ok
\* distances from s to every point of P (of a consistent system)
DFrom(E, P, s) == BF([p \in P |-> IF p = s THEN 0 ELSE INF], P, InEdges(E, P), Cardinality(P) + 1).d
DTo(E, P, s) == DFrom(Rev(E), P, s)
Pts(E) == {O} \cup {x[1] : x \in E} \cup {x[2] : x \in E}
===========================================================================
