------------------------------- MODULE SolMC -------------------------------
(* The whole search on a small constraint problem, every order of decisions, with either no lookahead
   (a conflict is seen when all variables of a constraint are decided) or a perfect one; the user steps,
   solves under limits, resets, jumps back and edits the constraints in between.
   Verdict: an exhausted search leaves no solution, a completed one is a solution.  Covered: whatever
   solution there is, it extends the standing decisions or a choice not tried yet.  Bounded: the limits
   hold.  The path to every user operation is printed and replayed in the real solver.              *)
EXTENDS Sol, TLC
CONSTANTS Dom, N, Ops
VARIABLES s, C, pc, pure, look, k, h
vars == <<s, C, pc, pure, look, k, h>>
View == <<s, C, pc, pure, look, k>>
V == {"x", "y", "z"}
Cands == [c1 |-> <<"neq", "x", "y">>, c2 |-> <<"neq", "y", "z">>, c3 |-> <<"neq", "x", "z">>, c4 |-> <<"lt", "x", "y">>, c5 |-> <<"lt", "z", "x">>]
Num == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2)
Least(S) == CHOOSE c \in S : \A d \in S : Num[c] <= Num[d]
Sat1(c, f) == LET t == Cands[c] IN CASE t[1] = "neq" -> f[t[2]] # f[t[3]] [] OTHER -> Num[f[t[2]]] < Num[f[t[3]]]
All == [V -> Dom]
Sols(K, f) == {g \in All : (\A v \in DOMAIN f : g[v] = f[v]) /\ \A c \in K : Sat1(c, g)}
F0 == [v \in {} |-> "0"]
RECURSIVE Asg(_)
Asg(t) == IF t = <<>> THEN F0 ELSE (t[Len(t)].e :> t[Len(t)].c) @@ Asg(SubSeq(t, 1, Len(t) - 1))
Inc(f) == IF look = "perfect" THEN Sols(C, f) = {} ELSE \E c \in C : Cands[c][2] \in DOMAIN f /\ Cands[c][3] \in DOMAIN f /\ ~Sat1(c, f)
Left(f, v) == IF look = "perfect" THEN {c \in Dom : ~Inc((v :> c) @@ f)} ELSE Dom
RECURSIVE Back(_)
Back(x) == IF Working(x) THEN LET u == IF x.act.done THEN Undo(x) ELSE x IN IF CanResume(u) THEN u ELSE Back(Drop(u))
           ELSE IF x.stk = <<>> THEN Exhaust(x) ELSE Back(Undo(x))
Try(x) == IF Over(x) THEN TimeOut(x)
          ELSE IF ~More(x.act) THEN Back(x)
          ELSE LET c == Least(x.act.todo) IN IF Inc((x.act.e :> c) @@ Asg(x.stk)) THEN Back(Fail(x, c)) ELSE Succeed(x, c)
Id == s.cnt + Depth(s) + 1
DoStep == LET f == Asg(s.stk) IN
  IF Inc(f) THEN {Back([s EXCEPT !.act = NoAct, !.fin = FALSE])}
  ELSE IF Working(s) THEN {Try(s)}
  ELSE IF DOMAIN f = V THEN {[s EXCEPT !.fin = TRUE]}
  ELSE {Try(New([s EXCEPT !.fin = FALSE], Id, v, Left(f, v), 0)) : v \in V \ DOMAIN f}
Go == /\ pc # "idle"
      /\ \E t \in DoStep : s' = t /\ pc' = IF pc = "step" \/ t.exh \/ t.tmo \/ t.fin THEN "idle" ELSE pc
      /\ UNCHANGED <<C, pure, look, k, h>>
\* ---- the user
Say(op) == pc = "idle" /\ k < N /\ k' = k + 1 /\ h' = h \o op \o ";" /\ PrintT("GEN|" \o h')
Can(o) == o \in Ops
Idle(x) == x.stk = <<>> /\ ~Working(x)
Step == Can("step") /\ ~s.exh /\ Say("step") /\ s' = [s EXCEPT !.tmo = FALSE] /\ pc' = "step" /\ UNCHANGED <<C, pure, look>>
Lim(n) == IF n = NoLimit THEN "-" ELSE ToString(n)
Solve == Can("solve") /\ ~s.exh /\ \E l \in {<<NoLimit, NoLimit>>, <<2, NoLimit>>, <<4, NoLimit>>, <<NoLimit, 0>>, <<NoLimit, 1>>} :
           Say("solve " \o Lim(l[1]) \o " " \o Lim(l[2])) /\ s' = Start(s, l[1], l[2]) /\ pc' = "solve" /\ UNCHANGED <<C, pure, look>>
Reset == Can("reset") /\ \E n \in 0..2 : n <= Depth(s) /\ Say(IF n = 0 THEN "sreset" ELSE "sreset " \o ToString(n))
           /\ LET t == ResetN(s, IF n = 0 THEN Depth(s) ELSE n) IN s' = t /\ pure' = (Idle(t) \/ (pure /\ Idle(s))) /\ UNCHANGED <<C, pc, look>>
Jump == Can("jump") /\ ~s.exh /\ \E n \in 1..2 : n <= Depth(s) /\ Say("backjump " \o ToString(n))
           /\ LET a == [s EXCEPT !.act = NoAct]  r == n - B2I(Working(s)) - 1  t == Floors([Back([a EXCEPT !.stk = SubSeq(@, 1, Len(@) - Max2(r, 0))]) EXCEPT !.cnt = 0, !.tmo = FALSE, !.fin = FALSE])
              IN s' = t /\ pure' = FALSE /\ UNCHANGED <<C, pc, look>>
Con == Can("con") /\ \E c \in DOMAIN Cands \ C : Say("con " \o c \o " " \o Cands[c][1] \o " - " \o Cands[c][2] \o " - " \o Cands[c][3])
           /\ C' = C \cup {c} /\ s' = [s EXCEPT !.fin = FALSE] /\ UNCHANGED <<pc, pure, look>>
DelCon == Can("con") /\ \E c \in C : Say("delcon " \o c) /\ C' = C \ {c} /\ s' = [s EXCEPT !.fin = FALSE] /\ pure' = (pure /\ Idle(s) /\ ~s.exh) /\ UNCHANGED <<pc, look>>
Starts == IF Can("con") THEN {{"c1", "c2"}, {"c4", "c5"}} ELSE SUBSET DOMAIN Cands
RECURSIVE Say0(_)
Say0(K) == IF K = {} THEN "" ELSE LET c == CHOOSE c \in K : TRUE IN "con " \o c \o " " \o Cands[c][1] \o " - " \o Cands[c][2] \o " - " \o Cands[c][3] \o ";" \o Say0(K \ {c})
Init == /\ s = S0 /\ C \in Starts /\ pc = "idle" /\ pure = TRUE /\ look \in {"none", "perfect"} /\ k = 0
        /\ h = Say0(C) \o "SOLVER;"
Next == Go \/ Step \/ Solve \/ Reset \/ Jump \/ Con \/ DelCon
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Verdict == /\ (s.exh /\ pure) => Sols(C, F0) = {}
           /\ s.fin => DOMAIN Asg(s.stk) = V /\ Asg(s.stk) \in Sols(C, F0)
Agrees(g, t) == \A i \in DOMAIN t : g[t[i].e] = t[i].c
Open(g) == \/ Agrees(g, s.stk) /\ (~Working(s) \/ g[s.act.e] \in s.act.todo)
           \/ \E i \in DOMAIN s.stk : Agrees(g, SubSeq(s.stk, 1, i - 1)) /\ g[s.stk[i].e] \in s.stk[i].todo
Covered == pure => \A g \in Sols(C, F0) : Open(g)
Bounded == pc = "solve" => s.cnt - s.sf <= s.ms /\ Depth(s) - s.df <= s.md + 1
Sane == /\ \A i \in DOMAIN s.stk : s.stk[i].c \notin s.stk[i].todo /\ \A j \in DOMAIN s.stk : i # j => s.stk[i].e # s.stk[j].e
        /\ (s.exh => Idle(s)) /\ (pc = "idle" /\ Working(s) => ~s.act.done)
==============================================================================
