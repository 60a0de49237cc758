------------------------------ MODULE NumMC ------------------------------
(* The laws of Num.tla itself, over every triple of boundary values. *)
EXTENDS Num
CONSTANT Deep
VARIABLES x, y, z
D == IF Deep THEN {-12, -8, -5, -4, -2, 0, 1, 4, 8, 12} ELSE {-8, -4, 0, 2, 4, 8}
Vals == {<<0, d>> : d \in D} \cup {PInf, MInf, <<1, -4>>, <<-1, 4>>, <<1, -8>>}
Init == x \in Vals /\ y \in Vals /\ z \in Vals
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
V(w) == w.k = "val"
Order == /\ (Lt(x, y) \/ Lt(y, x) \/ x = y) /\ ~(Lt(x, y) /\ Lt(y, x)) /\ (Lt(x, y) /\ Lt(y, z) => Lt(x, z))
         /\ ~Lt(PInf, x) /\ ~Lt(x, MInf)
Commute == Add(x, y) = Add(y, x) /\ Mul(x, y) = Mul(y, x)
Inverse == Neg(Neg(x)) = x /\ (~IsInf(x) => Sub(x, x) = Val(Zero)) /\ (V(Sub(x, y)) /\ ~IsInf(Sub(x, y).v) /\ ~IsInf(x) /\ ~IsInf(y) => Add(Sub(x, y).v, y) = Val(x))
Monotone == (Lt(x, y) /\ V(Add(x, z)) /\ V(Add(y, z)) /\ ~(IsInf(z) /\ (IsInf(x) \/ IsInf(y)))) => ~Lt(Add(y, z).v, Add(x, z).v)
Absorb == (IsInf(x) /\ ~IsInf(y)) => Add(x, y) = Val(x) /\ Sub(x, y) = Val(x) /\ (y # Zero => Mul(x, y) = InfS(Sgn(x) * Sgn(y)) /\ Div(x, y, TRUE) = InfS(Sgn(x) * Sgn(y)) /\ Div(y, x, TRUE) = Val(Zero))
Inside == \A w \in {Add(x, y), Sub(x, y), Mul(x, y), Div(x, y, TRUE)} : w.k \in {"val", "or"} => ~Lt(PInf, w.v) /\ ~Lt(w.v, MInf)
DivRem == (~IsInf(x) /\ ~IsInf(y) /\ x[1] = 0 /\ y[1] = 0 /\ y # Zero /\ Whole(x) /\ Whole(y)) =>
             LET q == Div(x, y, TRUE).v  r == Rem(x, y).v IN Add(Val(<<0, (q[2] * y[2]) \div 4>>).v, r) = Val(x) /\ AbsI(r[2]) < AbsI(y[2])
==========================================================================
