------------------------------- MODULE STN -------------------------------
(* Simple temporal networks: what their constraints mean.  A network is
     [tp |-> set of time points ("o" is the origin, at time 0),
      c  |-> [id -> [f, t, lb, ub]]]      lb <= time(t) - time(f) <= ub   (+-INF: no bound)           *)
EXTENDS VUtil
Net0 == [tp |-> {"o"}, c |-> EmptyFn]
AddTp(n, p) == [n EXCEPT !.tp = @ \cup {p}]
DelTp(n, p) == [n EXCEPT !.tp = @ \ {p}]
AddCon(n, id, f, t, lb, ub) == [n EXCEPT !.c = (id :> [f |-> f, t |-> t, lb |-> lb, ub |-> ub]) @@ @]
DelCon(n, id) == [n EXCEPT !.c = Without(@, id)]
Narrow(n, id, lb, ub) == [n EXCEPT !.c[id].lb = lb, !.c[id].ub = ub]
\* the direct edge a -> b : time(b) - time(a) <= w
EdgeW(n, a, b) == LET W == {n.c[k].ub : k \in {k \in DOMAIN n.c : n.c[k].f = a /\ n.c[k].t = b}}
                           \cup {-n.c[k].lb : k \in {k \in DOMAIN n.c : n.c[k].f = b /\ n.c[k].t = a}} \cup {INF}
                  IN Mn(W)
Sum(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
RECURSIVE FW(_, _)
FW(K, d) == IF K = {} THEN d
            ELSE LET k == CHOOSE k \in K : TRUE
                 IN FW(K \ {k}, TLCEval([e \in DOMAIN d |-> Min2(d[e], Sum(d[<<e[1], k>>], d[<<k, e[2]>>]))]))
\* shortest distances; a negative distance from a point to itself means inconsistency
Dists(n) == FW(n.tp, TLCEval([e \in n.tp \X n.tp |-> IF e[1] = e[2] THEN Min2(0, EdgeW(n, e[1], e[2])) ELSE EdgeW(n, e[1], e[2])]))
Cons(D, n) == \A p \in n.tp : D[<<p, p>>] >= 0
Ub(D, p) == D[<<"o", p>>]
Lb(D, p) == -D[<<p, "o">>]
==========================================================================
