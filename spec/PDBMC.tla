------------------------------- MODULE PDBMC -------------------------------
(* The plan database as a transition system over a small model: tokens t1, t2 of T.P (activating one brings a
   slave T.Q that it meets), t3 of T.Q; one or two timelines.  Every operation, in every order.
   Checked: the structural guarantees (life cycle, ownership, timelines) in every state, that merging and
   activating are undone exactly by cancelling, that what the advisor and the candidate search may offer includes
   everything that is truly possible.  The path to every transition is printed, to be replayed in the real code.  *)
EXTENDS PDB
CONSTANTS Chain, Ops, Lines0, Rules, MaxSteps, Queries
VARIABLES S, n, h
View == <<S, n>>
Par == [x |-> Num(0, 20)]
Model == [ext |-> [T |-> ""], tl |-> {"T"},
          pred |-> ("T.P" :> [ty |-> "T", nm |-> "P", par |-> Par, sub |-> IF Rules THEN <<[p |-> "T.Q", cs |-> <<<<"concurrent", "m", "end", "s", "start">>>>]>> ELSE <<>>])
                @@ ("T.Q" :> [ty |-> "T", nm |-> "Q", par |-> Par, sub |-> <<>>])]
Base == [S0 EXCEPT !.m = [ext |-> Model.ext, tl |-> Model.tl, pred |-> Model.pred], !.ob = [o \in Lines0 |-> "T"]]
Tk == IF Chain THEN {"t1", "t2", "t3", "t4"} ELSE {"t1", "t2", "t3"}
Init == /\ S = (IF Chain THEN [NewTok(NewTok(NewTok(NewTok(Base, "t1", "T.P", FALSE, ""), "t2", "T.P", FALSE, ""), "t3", "T.P", FALSE, ""), "t4", "T.P", FALSE, "")
                              EXCEPT !.tok = [x \in DOMAIN @ |-> [@[x] EXCEPT !.st = "active"]]]
                ELSE NewTok(NewTok(NewTok(Base, "t1", "T.P", TRUE, ""), "t2", "T.P", FALSE, ""), "t3", "T.Q", FALSE, ""))
        /\ n = 0 /\ h = ""
Is(t, s) == S.tok[t].st = s
T == DOMAIN S.tok
I == Implied(S)
Do(T2, op) == S' = T2 /\ n' = n + 1 /\ h' = h \o op \o ";" /\ PrintT("GEN|" \o h')
Restr == {<<"t1", "end", 0, 4>>, <<"t2", "start", 3, 9>>, <<"t3", "x", 2, 5>>}
CPool == {<<"c1", "precedes", "t1", "end", "t3", "start">>, <<"c2", "strictlyPrecedes", "t2", "end", "t1", "start">>, <<"c3", "leq", "t1", "x", "t2", "x">>}
CRec(c) == [ty |-> c[2], sc |-> <<<<c[3], c[4]>>, <<c[5], c[6]>>>>]
Bound(K) == \E c \in DOMAIN S.con : c \in {x[1] : x \in CPool} /\ \E i \in 1..2 : S.con[c].sc[i][1] \in K
\* right after a token that is not the last
After(o, t) == LET q == SeqOf(S, o) IN {<<q[i], t>> : i \in 1..(Len(q) - 1)}
AsPlace(o, t, c) == IF c \in After(o, t) THEN <<t, S.seq[o][Pos(S.seq[o], c[1]) + 1]>> ELSE c
\* like tokens enter in one order
Rank(t) == CASE t = "t1" -> 1 [] t = "t2" -> 2 [] t = "t3" -> 3 [] OTHER -> 4
Turn(t) == Chain => \A k \in T : Is(k, "active") /\ Lines(S, k) = {} => Rank(k) >= Rank(t)
Next ==
  /\ n < MaxSteps
  /\ \E t \in T :
     \/ "act" \in Ops /\ Is(t, "inactive") /\ Do(Activate(S, t), "act " \o t)
     \/ "rejt" \in Ops /\ Is(t, "inactive") /\ S.tok[t].rej /\ S.tok[t].ms = "" /\ Do(Reject(S, t), "rejt " \o t)
     \/ "cancel" \in Ops /\ ~Is(t, "inactive") /\ ~Bound(T \ Tk) /\ Do(Cancel(S, t), "cancel " \o t)
     \/ "deltok" \in Ops /\ Is(t, "inactive") /\ S.tok[t].ms = "" /\ ~Bound({t}) /\ Do(Delete(S, t), "deltok " \o t)
     \/ "mrg" \in Ops /\ Is(t, "inactive") /\ \E k \in T : k # t /\ Is(k, "active") /\ S.tok[k].p = S.tok[t].p /\ MergeOk(S, t, k) /\ Do(Merge(S, t, k), "mrg " \o t \o " " \o k)
     \/ "before" \in Ops /\ Is(t, "active") /\ Turn(t) /\ \E o \in Lines0 : ~OnLine(S, o, t) /\ Lines(S, t) = {}
           /\ \E c \in Places(S, o, t) \cup After(o, t) : LET J == I IN Feasible(J, PlaceEdges(S, o, t, AsPlace(o, t, c))) /\ Do(Before(S, o, c[1], c[2]), "before " \o o \o " " \o c[1] \o " " \o c[2])
     \/ "free" \in Ops /\ \E c \in S.ex : c[2] = t /\ Do(Free(S, c[1], c[2], c[3]), "free " \o c[1] \o " " \o c[2] \o " " \o c[3])
     \/ "restr" \in Ops /\ \E r \in Restr : r[1] = t /\ S.tok[t].at = "" /\ S.dom[<<t, r[2]>>] # Cap(S.dom[<<t, r[2]>>], Num(r[3], r[4]))
           /\ LET N == [S EXCEPT !.dom[<<t, r[2]>>] = Cap(@, Num(r[3], r[4]))] IN Implied(N).ok /\ Do(N, "restr " \o t \o " " \o r[2] \o " " \o ToString(r[3]) \o " " \o ToString(r[4]))
     \/ "spec" \in Ops /\ t \notin {"t3"} /\ S.tok[t].at = "" /\ <<t, "x">> \in DOMAIN S.dom /\ <<t, "x">> \notin DOMAIN S.spc
           /\ LET N == [S EXCEPT !.spc = (<<t, "x">> :> 3) @@ @] IN Implied(N).ok /\ Do(N, "spec " \o t \o " x 3")
     \/ "spec" \in Ops /\ <<t, "x">> \in DOMAIN S.spc /\ Do([S EXCEPT !.spc = Without(@, <<t, "x">>)], "reset " \o t \o " x")
     \/ "con" \in Ops /\ \E c \in CPool : c[3] = t /\ c[5] \in T /\ c[1] \notin DOMAIN S.con /\ Rep(S, c[3]) # Rep(S, c[5])
           /\ LET N == [S EXCEPT !.con = (c[1] :> CRec(c)) @@ @] IN Implied(N).ok /\ Do(N, "con " \o c[1] \o " " \o c[2] \o " " \o c[3] \o " " \o c[4] \o " " \o c[5] \o " " \o c[6])
     \/ "con" \in Ops /\ \E c \in CPool : c[3] = t /\ c[1] \in DOMAIN S.con /\ Do([S EXCEPT !.con = Without(@, c[1])], "delcon " \o c[1])
Spec == Init /\ [][Next]_<<S, n, h>>
\* ------------------------------------------------------------------ guarantees
LifeCycle == \A t \in T : LET k == S.tok[t] IN
  /\ (k.st = "merged") = (k.at # "")
  /\ k.at # "" => k.at \in T /\ S.tok[k.at].st = "active" /\ PredIsA(S.m, S.tok[k.at].p, k.p)
  /\ k.st = "rejected" => k.rej /\ k.ms = "" /\ Merged(S, t) = {}
  /\ Merged(S, t) # {} => k.st = "active"
Ownership == /\ \A t \in T : S.tok[t].ms # "" => S.tok[t].ms \in T /\ S.tok[S.tok[t].ms].st = "active"
             /\ \A t \in S.orph : t \in T /\ S.tok[t].st = "active" /\ Merged(S, t) # {} /\ S.tok[t].ms = ""
             /\ \A t \in T : S.tok[t].st = "active" /\ t \notin S.orph /\ S.tok[t].p = "T.P" /\ Rules => Cardinality(Slaves(S, t)) = 1
             /\ \A t \in T : S.tok[t].st # "active" => Slaves(S, t) = {}
             /\ \A x \in DOMAIN S.dom : x[1] \in T
             /\ \A c \in DOMAIN S.con : \A i \in DOMAIN S.con[c].sc : S.con[c].sc[i][1] \in T
Before2(o, a, b) == a # b /\ Pos(S.seq[o], a) < Pos(S.seq[o], b)
Timelines == \A o \in DOMAIN S.seq :
  /\ Cardinality(Range(S.seq[o])) = Len(S.seq[o])
  /\ \A t \in Range(S.seq[o]) : S.tok[t].st = "active" /\ \A p \in DOMAIN S.seq \ {o} : ~OnLine(S, p, t)
  /\ Adj(S, o) \subseteq S.pc
  /\ \A c \in S.pc : c[1] = o => OnLine(S, o, c[2]) /\ OnLine(S, o, c[3]) /\ Before2(o, c[2], c[3])
  /\ \A c \in S.ex : c[1] = o => OnLine(S, o, c[2]) /\ OnLine(S, o, c[3]) /\ (c[2] # c[3] => c \in S.pc)
\* a timeline's order is total: for any two tokens, one ends before the other starts
Total == I.ok => \A o \in DOMAIN S.seq : \A a, b \in Range(S.seq[o]) : Before2(o, a, b) => DistOf(I, St(b), En(a)) <= 0
Undone == \A t \in T : Is(t, "inactive") =>
  /\ Cancel(Activate(S, t), t) = S
  /\ \A k \in T : Is(k, "active") /\ k # t => Cancel(Merge(S, t, k), t) = S
\* nothing truly possible is missing from what the queries may offer
Offers == Queries /\ I.ok => LET J == I IN
  /\ \A t \in T : Is(t, "inactive") => \A k \in Candidates(S, t) : S.tok[t].p = S.tok[k].p /\ MergeOk(S, t, k) => Overlaps(S, J, t, k)
  /\ \A t \in T : Is(t, "active") => \A o \in Lines0 : ~OnLine(S, o, t) => \A c \in Places(S, o, t) : Feasible(J, PlaceEdges(S, o, t, c)) => PlacePairOk(S, J, o, t, c)
  /\ \A a, b \in T : a # b /\ S.tok[a].at = "" /\ S.tok[b].at = "" => (Feasible(J, {<<St(b), En(a), 0>>}) = CanPrec(J, a, b))
  /\ \A t \in T : S.tok[t].at = "" => LET b == BndDur(J, t)  x == ExactDur(J, t) IN b.lo <= x.lo /\ x.hi <= b.hi
\* what a merged token imposes holds of the token it is merged onto
Imposed == I.ok => \A t \in T : S.tok[t].at # "" => \A v \in MergeSame(S, t) : LET d == I.d[<<S.tok[t].at, v>>]  b == Own(S, <<t, v>>) IN
  IF v = "object" THEN d.vs \subseteq b.vs ELSE v # "duration" => d.lo >= b.lo /\ d.hi <= b.hi
============================================================================
