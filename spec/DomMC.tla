------------------------------ MODULE DomMC ------------------------------
(* The algebra of Dom.tla is the algebra of the sets: for every pair of small domains, the symbolic
   operations agree with the operations on the sets of quarters within a window, and every pair of
   operations printed is replayed in the real domains.                                            *)
EXTENDS Dom
CONSTANTS R, Gen
VARIABLES a, b, op
W == -R .. R
Iv(k, l, u) == [k |-> k, iv |-> TRUE, open |-> FALSE, lb |-> l, ub |-> u, vals |-> {}]
En(k, V) == [k |-> k, iv |-> FALSE, open |-> FALSE, lb |-> 0, ub |-> 0, vals |-> V]
Doms == {Iv("int", x, y) : x, y \in {-4, 0, 4}} \cup {Iv("real", x, y) : x, y \in W} \cup {En("num", V) : V \in SUBSET {-4, -1, 0, 2, 4}} \cup {En("inum", V) : V \in SUBSET {-4, 0, 4}}
Proper == {d \in Doms : d.iv => d.lb <= d.ub}
Ops == {"isect", "eq", "diff", "sub", "ints", "equal"}
S(d) == {v \in W : Mem(d, v)}
Text(d) == d.k \o " " \o (IF d.iv THEN ToString(d.lb) \o " " \o ToString(d.ub) ELSE "c" \o (LET RECURSIVE go(_)
   go(V) == IF V = {} THEN "" ELSE " " \o ToString(Mn(V)) \o go(V \ {Mn(V)}) IN go(d.vals)))
Init == a \in Proper /\ b \in Proper /\ op \in Ops /\ (Gen => PrintT("GEN|mk a " \o Text(a) \o ";mk b " \o Text(b) \o ";" \o op \o " a b"))
Next == UNCHANGED <<a, b, op>>
Spec == Init /\ [][Next]_<<a, b, op>>
\* reals have values between the quarters: they only have as many quarters as their ends allow
Dense == a.k = "real" /\ ~Single(a)
MeetIsMeet == LET m == Meet(a, b)  T == S(a) \cap S(b) IN m.e = (T = {}) /\ (T # {} => m.lb = Mn(T) /\ m.ub = Mx(T)) /\ Meet(b, a).e = m.e
SubIsSub == (~Dense => Sub(a, b) = (S(a) \subseteq S(b))) /\ (Sub(a, b) => S(a) \subseteq S(b)) /\ ((Dense /\ b.k # "real") => ~Sub(a, b)) /\ Sub(a, a)
InterIsInter == Inter(a, b) = (S(a) \cap S(b) # {}) /\ Inter(a, b) = Inter(b, a)
EqualIsEqual == Equal(a, b) = Equal(b, a) /\ (Equal(a, b) => S(a) = S(b)) /\ Equal(a, a)
SizeIsSize == (a.k # "real" => Size(a) = Cardinality(S(a))) /\ (IsEmpty(a) <=> S(a) = {})
\* whatever the rules accept as the outcome keeps exactly the common values
Accepts == LET m == Meet(a, b) IN \A n \in {d \in Proper : d.k = a.k} \cup (IF a.iv THEN {Iv(a.k, 1, 0)} ELSE {}) :
  IsectOk(n, a, b, n # a) => S(n) \subseteq S(a) /\ (S(a) \cap S(b)) \subseteq S(n)
==========================================================================
