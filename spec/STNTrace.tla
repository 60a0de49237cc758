----------------------------- MODULE STNTrace -----------------------------
(* Judges recorded runs of the real temporal network against STN.tla.
   T01 consistency and bounds exact | T02 distance and ordering queries                              *)
EXTENDS STN, VTrace
VARIABLES l, st
\* since: the bounds when the list of updated points was last reset, or "none"; ref: the reference point and whether its edges all leave or all enter it
St0 == [net |-> Net0, ep |-> "", i |-> 0, dead |-> FALSE, D |-> EmptyFn, ok |-> TRUE, since |-> "none", lb |-> EmptyFn, ub |-> EmptyFn, ref |-> "-", dir |-> ""]
Apply(n, e) ==
  LET a == e.a IN
  IF Has(e, "skip") THEN n ELSE
  CASE e.op = "tp" -> AddTp(n, a[1])
    [] e.op = "con" -> AddCon(n, a[1], a[2], a[3], NumTok(e, 4), NumTok(e, 5))
    [] e.op = "del" -> DelCon(n, a[1])
    [] e.op = "narrow" -> Narrow(n, a[1], NumTok(e, 2), NumTok(e, 3))
    [] e.op = "deltp" -> DelTp(n, a[1])
    [] OTHER -> n
Dir(n, r) == LET In == \E k \in DOMAIN n.c : (n.c[k].t = r /\ n.c[k].ub < INF) \/ (n.c[k].f = r /\ n.c[k].lb > -INF)
                 Out == \E k \in DOMAIN n.c : (n.c[k].f = r /\ n.c[k].ub < INF) \/ (n.c[k].t = r /\ n.c[k].lb > -INF)
             IN IF ~In THEN "out" ELSE IF ~Out THEN "in" ELSE "both"
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RefTime(D, r, dir, p) == Clamp(IF dir = "out" THEN D[<<r, p>>] ELSE -D[<<p, r>>], Lb(D, p), Ub(D, p))
Obs(s, n, D, ok, e) ==
  (IF e.con = ok THEN {} ELSE {<<"T01.verdict", IF ok THEN "inconsistent though solvable" ELSE "consistent though unsolvable">>})
  \cup (IF ~(ok /\ e.con) THEN {} ELSE
      {<<"T01.bounds", p \o " [" \o ToString(e.lo[p]) \o "," \o ToString(e.hi[p]) \o "] exact [" \o ToString(Lb(D, p)) \o "," \o ToString(Ub(D, p)) \o "]">>
        : p \in {p \in n.tp : e.lo[p] # Lb(D, p) \/ e.hi[p] # Ub(D, p)}}
      \cup {<<"T01.updated", p \o " changed without being listed">> : p \in {p \in (IF s.since = "none" THEN {} ELSE n.tp \ {"o"}) :
              (p \notin DOMAIN s.lb \/ s.lb[p] # Lb(D, p) \/ s.ub[p] # Ub(D, p)) /\ p \notin Range(e.up) /\ ~(Lb(D, p) = -INF /\ Ub(D, p) = INF)}}
      \cup {<<"T02.reftime", p \o " " \o ToString(e.rf[p]) \o " exact " \o ToString(RefTime(D, s.ref, s.dir, p))>>
              : p \in {p \in n.tp : s.ref # "-" /\ s.dir \in {"out", "in"} /\ e.rf[p] # RefTime(D, s.ref, s.dir, p)}})
  \cup (IF e.con \/ \A p \in n.tp : e.lo[p] > e.hi[p] THEN {} ELSE {<<"T01.bounds", "an inconsistent network reports bounds that are not empty">>})
RECURSIVE ZeroPath(_, _, _)
ZeroPath(n, W, b) == b \in W \/ LET X == W \cup {q \in n.tp : \E p \in W : EdgeW(n, p, q) = 0} IN X # W /\ ZeroPath(n, X, b)
Less(n, D, e, k) ==      \* below 1 only chains of zero edges are looked at
  LET d == D[<<e.a[1], e.a[2]>>] IN
  IF k = 1 THEN (e.ret => d <= 0) /\ (ZeroPath(n, {e.a[1]}, e.a[2]) => e.ret) ELSE e.ret = (d < k)
Query(n, D, ok, e) ==
  IF Has(e, "skip") THEN IF ok /\ e.op \in {"dist", "near", "many", "signs", "lt", "le", "maybe"} THEN {<<"T01.verdict", "refuses queries though solvable">>} ELSE {}
  ELSE CASE e.op = "dist" -> IF e.ub = D[<<e.a[1], e.a[2]>>] /\ e.lb = -D[<<e.a[2], e.a[1]>>] THEN {} ELSE {<<"T02.distance", ToString(<<e.lb, e.ub>>) \o " exact " \o ToString(<<-D[<<e.a[2], e.a[1]>>], D[<<e.a[1], e.a[2]>>]>>)>>}
    [] e.op = "near" -> IF e.ub >= D[<<e.a[1], e.a[2]>>] /\ e.lb <= -D[<<e.a[2], e.a[1]>>] THEN {} ELSE {<<"T02.approximate", ToString(<<e.lb, e.ub>>)>>}
    [] e.op = "many" -> {<<"T02.distances", e.a[i] \o " " \o ToString(<<e.lbs[i - 1], e.ubs[i - 1]>>)>> : i \in {i \in 2..Len(e.a) : e.ubs[i - 1] # D[<<e.a[1], e.a[i]>>] \/ e.lbs[i - 1] # -D[<<e.a[i], e.a[1]>>]}}
    [] e.op = "signs" -> {<<"T02.signs", e.a[i] \o " " \o ToString(<<e.lbs[i - 1], e.ubs[i - 1]>>)>> : i \in {i \in 2..Len(e.a) :
          LET u == D[<<e.a[1], e.a[i]>>]  lo == -D[<<e.a[i], e.a[1]>>] IN
          ~((e.ubs[i - 1] <= 0) = (u <= 0) /\ (e.ubs[i - 1] < 0) = (u < 0) /\ (e.lbs[i - 1] >= 0) = (lo >= 0) /\ (e.lbs[i - 1] > 0) = (lo > 0))}}
    [] e.op = "lt" -> IF Less(n, D, e, NumTok(e, 3)) THEN {} ELSE {<<"T02.less", ToString(e.ret) \o " distance " \o ToString(D[<<e.a[1], e.a[2]>>]) \o " bound " \o e.a[3]>>}
    [] e.op = "le" -> IF Less(n, D, e, NumTok(e, 3) + 1) THEN {} ELSE {<<"T02.lessEqual", ToString(e.ret) \o " distance " \o ToString(D[<<e.a[1], e.a[2]>>]) \o " bound " \o e.a[3]>>}
    [] e.op = "maybe" -> IF D[<<e.a[1], e.a[2]>>] < NumTok(e, 3) => e.ret THEN {} ELSE {<<"T02.possibly", e.a[3]>>}
    [] e.op = "edge0" -> IF e.ret = (EdgeW(n, e.a[1], "o") < INF) THEN {} ELSE {<<"T02.edge", e.a[1]>>}
    [] e.op = "prop" -> IF e.ret = ok THEN {} ELSE {<<"T01.verdict", IF ok THEN "inconsistent though solvable" ELSE "consistent though unsolvable">>}
    [] e.op = "nogood" -> IF ok THEN (IF e.cyc = <<>> THEN {} ELSE {<<"T01.nogood", "a conflict is reported for a solvable network">>})
         ELSE IF e.cyc = <<>> THEN {<<"T01.nogood", "no conflict is reported">>}
         ELSE LET L == Len(e.cyc) IN
              IF (\A i \in 1..L : e.cyc[i].f \in n.tp /\ e.cyc[i].t \in n.tp /\ e.cyc[i].w = EdgeW(n, e.cyc[i].f, e.cyc[i].t) /\ e.cyc[i].f = e.cyc[(i % L) + 1].t)
                 /\ SumSeq([i \in 1..L |-> e.cyc[i].w]) < 0
              THEN {} ELSE {<<"T01.nogood", ToString(e.cyc) \o " is not a negative cycle of the network">>}
    [] OTHER -> {}
Judge(s, n, D, ok, e) == IF e.op = "obs" THEN Obs(s, n, D, ok, e) ELSE Query(n, D, ok, e)
Init == l = 1 /\ st = St0
ErrTag(e) == IF e.op = "crash" THEN "ERR.crash" ELSE "ERR." \o e.op
Changing == {"tp", "con", "del", "narrow", "deltp"}
Step(e) ==
  IF st.dead THEN st' = [st EXCEPT !.i = @ + 1]
  ELSE IF e.err # "" THEN Report(ErrTag(e), st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.i = @ + 1, !.dead = TRUE]
  ELSE LET n == Apply(st.net, e)
           D == IF e.op \in Changing \/ DOMAIN st.D = {} THEN TLCEval(Dists(n)) ELSE st.D
           ok == Cons(D, n)
           ref == IF e.op = "ref" THEN e.a[1] ELSE st.ref
           s1 == [st EXCEPT !.ref = ref, !.dir = IF ref = "-" \/ ref \notin n.tp THEN "" ELSE Dir(n, ref)]
           bad == Judge(s1, n, D, ok, e)
       IN /\ \A b \in bad : Report(b[1], st.ep, st.i + 1, b[2])
          /\ st' = [s1 EXCEPT !.i = @ + 1, !.net = n, !.D = D, !.ok = ok,
                      !.since = IF e.op = "reset" /\ ok THEN "reset" ELSE IF ~ok THEN "none" ELSE @,
                      !.lb = IF e.op = "reset" /\ ok THEN [p \in n.tp |-> Lb(D, p)] ELSE @,
                      !.ub = IF e.op = "reset" /\ ok THEN [p \in n.tp |-> Ub(D, p)] ELSE @]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "begin" THEN st' = [St0 EXCEPT !.ep = e.ep] ELSE IF e.op = "end" THEN
              (IF e.err # "" /\ ~st.dead THEN Report("ERR.end", st.ep, st.i + 1, e.err) ELSE TRUE) /\ st' = [st EXCEPT !.dead = TRUE] ELSE Step(e)
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
