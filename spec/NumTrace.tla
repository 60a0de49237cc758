----------------------------- MODULE NumTrace -----------------------------
(* Judges what the real extended numbers answered (U01). *)
EXTENDS Num, VTrace
VARIABLES l, st
IntK == {"e", "i", "u", "l"}
In(e, p, kind) == <<e[p \o "k"], IF kind \in IntK THEN 4 * e[p \o "d"] ELSE e[p \o "d"]>>
Out(e, p) == <<e[p \o "k"], IF e[p \o "t"] = "e" THEN 4 * e[p \o "d"] ELSE e[p \o "d"]>>
\* a real with an infinity's magnitude keeps no quarters: accept the nearest whole steps
Close(a, b) == a >= b - 1 /\ a <= b + 1
Near(o, v) == o = v \/ (v[1] # 0 /\ v[2] % 4 # 0 /\ o[1] = v[1] /\ AbsI(o[2] - v[2]) <= 4)
Agrees(e, w) ==
  LET got == ~Has(e, "ex")  int == got /\ e.rt = "e" IN
  CASE w.k = "any" -> TRUE
    [] w.k = "rep" -> ~got
    [] w.k = "or" -> ~got \/ Near(Out(e, "r"), w.v)
    [] ~got -> FALSE
    [] w.k = "val" -> Near(Out(e, "r"), w.v) /\ (int \/ w.v[1] # 0 \/ e.rx)
    [] w.k = "prod" -> e.rk = 0 /\ (IF int THEN e.rd = w.v[2] \div 16 ELSE Close(e.rm, 6250 * w.v[2]))
    [] w.k = "quot" -> e.rk = 0 /\ Close(e.rm, TDiv(w.v[1] * 100000, w.v[2]))
    [] w.k = "tiny" -> e.rk = 0 /\ (IF int THEN e.rd = 0 ELSE e.rm = 0)
Kinds(e) == <<e.a[1], e.a[2]>>
Show(e) == ToString(e.a)
Want(e) == CASE e.op \in {"bin", "set"} -> Bin(e.a[3], In(e, "x", e.a[1]), In(e, "y", e.a[2]), e.a[1] \in IntK /\ e.a[2] \in IntK)
             [] OTHER -> Whatever
Bad(tag, e) == {<<"U01." \o tag, Show(e)>>}
Judge(e) ==
  IF Has(e, "skip") \/ e.op = "begin" THEN {}
  ELSE CASE e.op = "bin" -> IF Agrees(e, Want(e)) THEN {} ELSE Bad("arithmetic", e)
    [] e.op = "set" -> IF Agrees(e, Want(e)) /\ (Has(e, "ex") \/ e.same) THEN {} ELSE Bad("assign", e)
    [] e.op = "cmp" -> LET x == In(e, "x", e.a[1])  y == In(e, "y", e.a[2]) IN
         IF e.lt = Lt(x, y) /\ e.le = (Lt(x, y) \/ x = y) /\ e.eq = (x = y) /\ e.ge = ~Lt(x, y) /\ e.gt = Lt(y, x) /\ e.ne = (x # y) THEN {} ELSE Bad("order", e)
    [] e.op = "un" -> LET x == In(e, "x", e.a[1])  f == e.a[2]  u == Add(x, <<0, 4>>)  d == Sub(x, <<0, 4>>) IN
         IF Has(e, "ex") THEN (IF f \in {"inc", "pinc", "dec", "pdec"} THEN {} ELSE Bad("unary", e))
         ELSE IF f = "not" THEN (IF e.b = (x = Zero) THEN {} ELSE Bad("unary", e))
         ELSE LET r == Out(e, "r")  n == Out(e, "a") IN
              IF CASE f = "neg" -> r = Neg(x) [] f = "pos" -> r = x
                   [] f = "inc" -> u.k # "val" \/ (r = u.v /\ n = u.v) [] f = "dec" -> d.k # "val" \/ (r = d.v /\ n = d.v)
                   [] f = "pinc" -> r = x /\ (u.k # "val" \/ n = u.v) [] f = "pdec" -> r = x /\ (d.k # "val" \/ n = d.v)
              THEN {} ELSE Bad("unary", e)
    [] e.op = "conv" -> LET x == In(e, "x", e.a[1])  f == e.a[2]  r == IF Has(e, "ex") THEN <<8, 0>> ELSE Out(e, "r") IN
         IF r = (CASE e.a[1] = "e" -> x [] f \in {"e", "l", "i"} -> Trunc(x) [] f = "floor" -> FloorQ(x) [] f = "ceil" -> CeilQ(x)
                    [] f = "abs" -> (IF Lt(x, Zero) THEN Neg(x) ELSE x) [] OTHER -> x) THEN {} ELSE Bad("conversion", e)
    [] e.op = "lim" -> IF Out(e, "a") = PInf /\ Out(e, "b") = MInf /\ Out(e, "c") = <<1, -4>> /\ Out(e, "g") = <<-1, 4>> /\ Out(e, "h") = PInf /\ Out(e, "j") = MInf THEN {} ELSE Bad("limits", e)
    [] e.op = "mm" -> LET x == In(e, "x", "f")  y == In(e, "y", "f") IN
         IF Out(e, "r") = (IF Lt(x, y) THEN x ELSE y) /\ Out(e, "a") = (IF Lt(x, y) THEN y ELSE x) THEN {} ELSE Bad("minmax", e)
    [] OTHER -> {}
Init == l = 1 /\ st = [ep |-> "", i |-> 0, dead |-> FALSE]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN st' = [ep |-> e.ep, i |-> 0, dead |-> FALSE]
           ELSE IF e.op = "end" \/ st.dead THEN st' = [st EXCEPT !.i = @ + 1]
           ELSE IF e.err # "" THEN Report("ERR." \o e.op, st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.dead = TRUE]
           ELSE /\ \A b \in Judge(e) : Report(b[1], st.ep, st.i + 1, b[2])
                /\ st' = [st EXCEPT !.i = @ + 1]
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
