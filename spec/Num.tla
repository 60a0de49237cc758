------------------------------- MODULE Num -------------------------------
(* Extended numbers.  A value is <<k, d>> and stands for k * INF + d / 4 where INF (2^52 - 1) is taken to be
   larger than anything that can be made of the d's, so that the order is lexicographic.  <<1, 0>> and <<-1, 0>>
   are the infinities themselves; a value beyond them does not exist and must be reported.               *)
EXTENDS VUtil
PInf == <<1, 0>>
MInf == <<-1, 0>>
Zero == <<0, 0>>
IsInf(x) == x \in {PInf, MInf}
Lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Sgn(x) == IF Lt(x, Zero) THEN -1 ELSE IF x = Zero THEN 0 ELSE 1
Neg(x) == <<-x[1], -x[2]>>
\* what may come out: a value, a report, or anything at all (unspecified)
Val(v) == [k |-> "val", v |-> v]
Rep == [k |-> "rep", v |-> Zero]
Whatever == [k |-> "any", v |-> Zero]
Or(v) == [k |-> "or", v |-> v]           \* this value or a report (rounding decides)
InfS(s) == IF s > 0 THEN Val(PInf) ELSE IF s < 0 THEN Val(MInf) ELSE Val(Zero)
Fit(v) == IF Lt(PInf, v) THEN (IF v[1] = 1 /\ v[2] < 4 THEN Or(PInf) ELSE Rep)
          ELSE IF Lt(v, MInf) THEN (IF v[1] = -1 /\ v[2] > -4 THEN Or(MInf) ELSE Rep) ELSE Val(v)
Add(x, y) == IF IsInf(x) /\ IsInf(y) THEN (IF x = y THEN Val(x) ELSE Val(Zero))
             ELSE IF IsInf(x) THEN Val(x) ELSE IF IsInf(y) THEN Val(y) ELSE Fit(<<x[1] + y[1], x[2] + y[2]>>)
Sub(x, y) == Add(x, Neg(y))
Whole(x) == x[2] % 4 = 0
Mul(x, y) == LET s == Sgn(x) * Sgn(y) IN
  IF s = 0 THEN Val(Zero) ELSE IF IsInf(x) \/ IsInf(y) THEN InfS(s)
  ELSE IF x[1] # 0 /\ y[1] # 0 THEN Rep
  ELSE IF x[1] = 0 /\ y[1] = 0 THEN [k |-> "prod", v |-> <<0, x[2] * y[2]>>]
  ELSE LET b == IF x[1] # 0 THEN x ELSE y  c == IF x[1] # 0 THEN y ELSE x IN
       IF AbsI(c[2]) > 4 /\ AbsI(c[2]) < 8 THEN Whatever          \* neither clearly in nor clearly out
       ELSE IF AbsI(c[2]) >= 8 THEN Rep ELSE IF ~Whole(c) THEN Whatever ELSE Val(<<b[1] * (c[2] \div 4), b[2] * (c[2] \div 4)>>)
TDiv(a, b) == (IF (a < 0) = (b < 0) THEN 1 ELSE -1) * (AbsI(a) \div AbsI(b))
TRem(a, b) == a - b * TDiv(a, b)
\* int: the quotient of two integers is cut towards zero
Div(x, y, int) ==
  IF IsInf(x) /\ IsInf(y) THEN Whatever ELSE IF y = Zero THEN Rep
  ELSE IF IsInf(x) THEN InfS(Sgn(x) * Sgn(y)) ELSE IF IsInf(y) THEN Val(Zero)
  ELSE IF x[1] = 0 /\ y[1] = 0 THEN (IF int THEN Val(<<0, 4 * TDiv(x[2], y[2])>>) ELSE [k |-> "quot", v |-> <<x[2], y[2]>>])
  ELSE IF x[1] = 0 THEN [k |-> "tiny", v |-> Zero]
  ELSE IF y[1] = 0 THEN (IF y[2] = 4 THEN Val(x) ELSE IF y[2] = -4 THEN Val(Neg(x)) ELSE IF AbsI(y[2]) < 3 THEN Rep ELSE Whatever)
  ELSE LET ax == IF x[1] < 0 THEN Neg(x) ELSE x  ay == IF y[1] < 0 THEN Neg(y) ELSE y  s == x[1] * y[1] IN
       IF int THEN Val(<<0, IF Lt(ax, ay) THEN 0 ELSE 4 * s>>) ELSE [k |-> "quot", v |-> <<s, 1>>]
Rem(x, y) == IF IsInf(x) \/ y = MInf \/ y = Zero THEN Whatever ELSE IF y = PInf THEN Val(x)
             ELSE IF x[1] = 0 /\ y[1] = 0 THEN Val(<<0, 4 * TRem(x[2] \div 4, y[2] \div 4)>>) ELSE IF x[1] = 0 THEN Val(x) ELSE Whatever
Bin(f, x, y, int) == CASE f \in {"+", "+="} -> Add(x, y) [] f \in {"-", "-="} -> Sub(x, y) [] f \in {"*", "*="} -> Mul(x, y)
                       [] f \in {"/", "/="} -> Div(x, y, int) [] f = "%" -> Rem(x, y)
FloorQ(x) == <<x[1], 4 * (x[2] \div 4)>>
CeilQ(x) == Neg(FloorQ(Neg(x)))
Trunc(x) == IF Lt(x, Zero) THEN CeilQ(x) ELSE FloorQ(x)
==========================================================================
