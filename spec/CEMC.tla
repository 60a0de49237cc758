------------------------------ MODULE CEMC ------------------------------
(* The constraint engine as a transition system: operations interleave with executions of single
   propagators in any order; retractions relax everything connected to what was retracted.
   Checked: propagation is sound in every intermediate state, the result of complete propagation does not
   depend on the order of executions nor on the history, a ground result satisfies every constraint, and
   propagation terminates.
   In "generate" mode the executions of one propagation are one step, and the path to every transition of
   the state graph is printed, to be replayed in the real engine.                                       *)
EXTENDS CE
CONSTANTS NV, MaxC, Gen, HMax
VARIABLES net, dom, ag, bad, h
vars == <<net, dom, ag, bad, h>>
View == <<net, dom, ag, bad>>

VName == <<"x0", "x1", "x2">>
Vs == {VName[i] : i \in 1..NV}
BaseOf == [v \in Vs |-> IF v = "x2" THEN [k |-> "b", e |-> FALSE, o |-> FALSE, lo |-> 0, hi |-> 1, vs |-> {}] ELSE [k |-> "i", e |-> FALSE, o |-> FALSE, lo |-> 0, hi |-> 2, vs |-> {}]]
Pool == LET two == {<<"c1", "eq", <<"x0", "x1">>>>, <<"c2", "neq", <<"x0", "x1">>>>, <<"c3", "leq", <<"x0", "x1">>>>, <<"c4", "lt", <<"x1", "x0">>>>}
        IN IF NV = 2 THEN two \cup {<<"c5", "addEq", <<"x0", "x1", "x1">>>>}
           ELSE two \cup {<<"c6", "testEq", <<"x2", "x0", "x1">>>>, <<"c7", "condEq", <<"x2", "x0", "x1">>>>} 

Sup(d, c) == \* assignments of the scope within d that satisfy c
  {f \in [Range(c.s) -> 0..2] : (\A v \in Range(c.s) : f[v] \in d[v]) /\ Means(c.t, [i \in 1..Len(c.s) |-> f[c.s[i]]])}
Narrow(d, c) == LET S == Sup(d, c) IN [v \in DOMAIN d |-> IF v \in Range(c.s) THEN {f[v] : f \in S} ELSE d[v]]
Start(n) == [v \in DOMAIN n.v |-> Cand(n, v)]
RECURSIVE Fix(_, _)
Fix(n, d) == IF \E v \in DOMAIN d : d[v] = {} THEN [v \in DOMAIN d |-> {}]
             ELSE LET C == {c \in DOMAIN n.c : Narrow(d, n.c[c]) # d} IN IF C = {} THEN d ELSE Fix(n, Narrow(d, n.c[CHOOSE c \in C : TRUE]))
Touching(n, W) == {c \in DOMAIN n.c : Range(n.c[c].s) \cap W # {}}
\* relaxing W: everything connected returns to its base domain or specified value and is looked at again
Relax(n, d, W) == LET K == Component(n, DOMAIN n.c, W) IN [v \in DOMAIN d |-> IF v \in K THEN Cand(n, v) ELSE d[v]]

Init == /\ net = [NoNet EXCEPT !.v = [v \in Vs |-> VarR(BaseOf[v], TRUE)]]
        /\ dom = Start(net) /\ ag = {} /\ bad = FALSE /\ h = ""
\* an inconsistency is taken back by relaxing all connected to the empty variables
AfterRelax(n, d, W) == LET E == {v \in DOMAIN d : d[v] = {}}  IN Relax(n, d, W \cup E)
Go(op, n, d, a) == /\ net' = n /\ dom' = d /\ ag' = a /\ h' = h \o op \o ";"
                   /\ bad' = (bad /\ \E v \in DOMAIN d : d[v] = {})
                   /\ IF Gen THEN PrintT("GEN|" \o h') ELSE TRUE
DoPost == \E p \in Pool : p[1] \notin DOMAIN net.c /\ Cardinality(DOMAIN net.c) < MaxC
             /\ LET n == Post(net, p[1], p[2], p[3]) IN Go("post " \o p[1] \o " " \o p[2] \o (IF Len(p[3]) = 2 THEN " " \o p[3][1] \o " " \o p[3][2] ELSE " " \o p[3][1] \o " " \o p[3][2] \o " " \o p[3][3]), n, dom, ag \cup {p[1]})
DoDelete == \E c \in DOMAIN net.c : LET n == Unpost(net, c)
                                        W == Range(net.c[c].s)
                                        d == AfterRelax(n, dom, W)
                                    IN Go("delete " \o c, n, d, (ag \cap DOMAIN n.c) \cup {k \in DOMAIN n.c : \E v \in Range(n.c[k].s) : d[v] # dom[v] \/ v \in W})
DoSpec == \E v \in Vs : ~net.v[v].sp /\ \E x \in Members(net.v[v].b) :
             LET n == Specify(net, v, x) IN Go("spec " \o v \o " " \o ToString(x), n, [dom EXCEPT ![v] = @ \cap {x}], ag \cup Touching(n, {v}))
DoReset == \E v \in Vs : net.v[v].sp /\ LET n == Reset(net, v)  d == AfterRelax(n, dom, {v}) IN
             Go("reset " \o v, n, d, ag \cup {k \in DOMAIN n.c : \E w \in Range(n.c[k].s) : d[w] # dom[w] \/ w = v})
Exec == /\ ~Gen /\ ~bad /\ \E c \in ag : LET d == Narrow(dom, net.c[c])
                                            ch == {v \in DOMAIN d : d[v] # dom[v]} IN
              /\ dom' = d /\ bad' = (\E v \in DOMAIN d : d[v] = {})
              /\ ag' = (ag \ {c}) \cup Touching(net, ch)
        /\ UNCHANGED <<net, h>>
DoProp == /\ Gen /\ (ag # {} \/ \E v \in Vs : dom[v] = {}) /\ ~bad
          /\ LET d == Fix(net, dom) IN dom' = d /\ bad' = (\E v \in DOMAIN d : d[v] = {}) /\ ag' = {} /\ net' = net /\ h' = h \o "prop;"
          /\ PrintT("GEN|" \o h')
Next == DoPost \/ DoDelete \/ DoSpec \/ DoReset \/ Exec \/ DoProp
Spec == Init /\ [][Next]_vars
\* without further operations
Quiet == Init /\ [][Next]_vars

Sols == SolsOf(net, DOMAIN net.c, Vs)
Sound == \A f \in Sols : \A v \in Vs : f[v] \in dom[v] \/ \E w \in Vs : dom[w] = {}
Refuted == (\E v \in Vs : dom[v] = {}) => (Sols = {})
Done == ag = {} /\ ~bad /\ \A v \in Vs : dom[v] # {}
GroundComplete == (Done /\ \A v \in Vs : Cardinality(dom[v]) = 1) => Sols # {}
HistoryIndependent == Done => dom = Fix(net, Start(net))
VerdictIndependent == bad => \E v \in Vs : Fix(net, Start(net))[v] = {}
=========================================================================
