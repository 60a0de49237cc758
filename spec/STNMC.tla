------------------------------- MODULE STNMC -------------------------------
(* The incremental temporal network as a transition system.  Adding or narrowing a constraint propagates
   potentials (incremental Bellman-Ford, inconsistency seen when the start point improves), then upper and
   lower bounds; removing one only marks the network, and the next propagation starts afresh (inconsistency
   seen by depth).  Single steps may be taken in any order.
   Checked: whenever nothing is pending and the network is not marked, the verdict says whether a solution
   exists and the bounds are the exact ones; every chain of updates ends.
   In "generate" mode a propagation is one step taken in one fixed order, and the path to every transition is
   printed, to be replayed in the real network.                                                          *)
EXTENDS STN, TLC
CONSTANTS Pts, Pool, MaxC, Gen
VARIABLES net, pot, dep, ub, lb, dirty, con, ph, q, src, h
vars == <<net, pot, dep, ub, lb, dirty, con, ph, q, src, h>>
View == <<net, pot, dep, ub, lb, dirty, con, ph, q, src>>
P == Pts \cup {"o"}
Small == {<<"c1", "o", "a", 0, 4>>, <<"c2", "a", "b", 1, INF>>, <<"c3", "b", "o", -INF, -3>>, <<"c4", "o", "b", 0, 3>>, <<"c5", "a", "b", 0, 0>>, <<"c6", "a", "o", -INF, -2>>}
Tiny == {c \in Small : c[1] \notin {"c3", "c6"}}
Three == {<<"c1", "o", "a", 0, 4>>, <<"c2", "a", "b", 1, 3>>, <<"c3", "b", "c", -INF, -1>>, <<"c4", "c", "a", -1, 2>>, <<"c5", "o", "c", 2, INF>>, <<"c6", "b", "o", -INF, -1>>, <<"c7", "a", "c", 0, 0>>}
\* a narrower version of a constraint: one unit off its finite upper bound, or a bound where there was none
Tighter(c) == IF c.ub < INF THEN (IF c.ub > c.lb THEN <<c.lb, c.ub - 1>> ELSE <<c.lb, c.ub>>) ELSE <<c.lb, c.lb + 2>>
W(n, a, b) == EdgeW(n, a, b)
Init == /\ net = [Net0 EXCEPT !.tp = P] /\ pot = [p \in P |-> 0] /\ dep = [p \in P |-> 0]
        /\ ub = [p \in P |-> IF p = "o" THEN 0 ELSE INF] /\ lb = [p \in P |-> IF p = "o" THEN 0 ELSE -INF]
        /\ dirty = FALSE /\ con = TRUE /\ ph = "idle" /\ q = {} /\ src = "-" /\ h = ""
S(x) == IF x >= INF THEN "inf" ELSE IF x <= -INF THEN "-inf" ELSE ToString(x)
MaxL == -INF
\* ---- one propagation, as values (r: pot, dep, ub, lb, ok)
RECURSIVE BF(_, _, _, _, _), Up(_, _, _), Down(_, _, _)
Pick(Q) == CHOOSE p \in Q : TRUE
BF(n, pt, dp, Q, s) == \* Bellman-Ford from the queue; s: start point watched, or "-" (depth only)
  IF Q = {} THEN [pot |-> pt, ok |-> TRUE]
  ELSE LET p == Pick(Q)  imp == {x \in P : W(n, p, x) < INF /\ pt[p] + W(n, p, x) < pt[x]}
           pt2 == [x \in P |-> IF x \in imp THEN pt[p] + W(n, p, x) ELSE pt[x]]
           dp2 == [x \in P |-> IF x \in imp THEN dp[p] + 1 ELSE dp[x]]
       IN IF \E x \in imp : x = s \/ dp2[x] > Cardinality(P) THEN [pot |-> pt2, ok |-> FALSE] ELSE BF(n, pt2, dp2, (Q \ {p}) \cup imp, s)
Up(n, u, Q) == IF Q = {} THEN u ELSE LET p == Pick(Q)  imp == {x \in P : Sum(u[p], W(n, p, x)) < u[x]} IN Up(n, [x \in P |-> IF x \in imp THEN u[p] + W(n, p, x) ELSE u[x]], (Q \ {p}) \cup imp)
Down(n, v, Q) == IF Q = {} THEN v ELSE LET p == Pick(Q)  imp == {x \in P : v[p] > MaxL /\ W(n, x, p) < INF /\ v[p] - W(n, x, p) > v[x]} IN Down(n, [x \in P |-> IF x \in imp THEN v[p] - W(n, x, p) ELSE v[x]], (Q \ {p}) \cup imp)
\* ---- starting points of an incremental propagation over the constraint between f and t
StartPot(n, f, t) == IF W(n, f, t) < INF /\ pot[f] + W(n, f, t) < pot[t] THEN <<f, t>> ELSE IF W(n, t, f) < INF /\ pot[t] + W(n, t, f) < pot[f] THEN <<t, f>> ELSE <<>>
StartUp(n, u, f, t) == IF Sum(u[f], W(n, f, t)) < u[t] THEN <<f, t>> ELSE IF Sum(u[t], W(n, t, f)) < u[f] THEN <<t, f>> ELSE <<>>
StartDown(n, v, f, t) == IF v[t] > -INF /\ W(n, f, t) < INF /\ v[t] - W(n, f, t) > v[f] THEN <<t, f>> ELSE IF v[f] > -INF /\ W(n, t, f) < INF /\ v[f] - W(n, t, f) > v[t] THEN <<f, t>> ELSE <<>>
Say(op) == h' = h \o op \o ";" /\ (IF Gen THEN PrintT("GEN|" \o h') ELSE TRUE)
\* ---- the operations
Tell(n, f, t) ==     \* a constraint between f and t was added or narrowed
  IF dirty \/ ~con THEN net' = n /\ UNCHANGED <<pot, dep, ub, lb, dirty, con, ph, q, src>>
  ELSE IF Gen THEN
    LET s == StartPot(n, f, t)
        r == IF s = <<>> THEN [pot |-> pot, ok |-> TRUE] ELSE BF(n, [pot EXCEPT ![s[2]] = pot[s[1]] + W(n, s[1], s[2])], [p \in P |-> IF p = s[2] THEN 1 ELSE 0], {s[2]}, s[1])
        su == StartUp(n, ub, f, t)  sd == StartDown(n, lb, f, t)
    IN /\ net' = n /\ pot' = r.pot /\ con' = r.ok /\ UNCHANGED <<dep, dirty, ph, q, src>>
       /\ ub' = IF ~r.ok \/ su = <<>> THEN ub ELSE Up(n, [ub EXCEPT ![su[2]] = ub[su[1]] + W(n, su[1], su[2])], {su[2]})
       /\ lb' = IF ~r.ok \/ sd = <<>> THEN lb ELSE Down(n, [lb EXCEPT ![sd[2]] = lb[sd[1]] - W(n, sd[2], sd[1])], {sd[2]})
  ELSE LET s == StartPot(n, f, t) IN
    /\ net' = n /\ UNCHANGED <<ub, lb, dirty, con>>
    /\ IF s = <<>> THEN /\ UNCHANGED <<pot, dep>> /\ src' = f \o "|" \o t /\ ph' = "tell" /\ q' = {}
       ELSE /\ pot' = [pot EXCEPT ![s[2]] = pot[s[1]] + W(n, s[1], s[2])] /\ dep' = [dep EXCEPT ![s[1]] = 0, ![s[2]] = 1]
            /\ src' = s[1] /\ ph' = "bf" /\ q' = {s[2]}
DoAdd == \E c \in Pool : c[1] \notin DOMAIN net.c /\ Cardinality(DOMAIN net.c) < MaxC
            /\ Tell(AddCon(net, c[1], c[2], c[3], c[4], c[5]), c[2], c[3])
            /\ Say("con " \o c[1] \o " " \o c[2] \o " " \o c[3] \o " " \o S(c[4]) \o " " \o S(c[5]) \o ";obs")
DoNarrow == \E k \in DOMAIN net.c : LET c == net.c[k]  b == Tighter(c) IN
            /\ b # <<c.lb, c.ub>> /\ \E o \in Pool : o[1] = k /\ o[4] = c.lb /\ o[5] = c.ub
            /\ Tell(Narrow(net, k, b[1], b[2]), c.f, c.t)
            /\ Say("narrow " \o k \o " " \o S(b[1]) \o " " \o S(b[2]) \o ";obs")
DoDel == \E k \in DOMAIN net.c : /\ net' = DelCon(net, k) /\ dirty' = TRUE /\ Say("del " \o k)
            /\ UNCHANGED <<pot, dep, ub, lb, con, ph, q, src>>
DoFull == /\ dirty /\ Say("obs")
          /\ IF Gen THEN LET r == BF(net, [p \in P |-> 0], [p \in P |-> 0], P, "-") IN
               /\ pot' = r.pot /\ con' = r.ok /\ dirty' = FALSE /\ UNCHANGED <<net, dep, ph, q, src>>
               /\ ub' = IF r.ok THEN Up(net, [p \in P |-> IF p = "o" THEN 0 ELSE INF], {"o"}) ELSE ub
               /\ lb' = IF r.ok THEN Down(net, [p \in P |-> IF p = "o" THEN 0 ELSE -INF], {"o"}) ELSE lb
             ELSE /\ pot' = [p \in P |-> 0] /\ dep' = [p \in P |-> 0] /\ q' = P /\ src' = "-" /\ ph' = "bf" /\ dirty' = FALSE
                  /\ UNCHANGED <<net, ub, lb, con>>
Op == ph = "idle" /\ (DoAdd \/ DoNarrow \/ DoDel \/ DoFull)
\* ---- single steps (not in generate mode): one edge at a time
Bf == /\ ph = "bf" /\ q # {} /\ \E p \in q :
         LET imp == {x \in P : W(net, p, x) < INF /\ pot[p] + W(net, p, x) < pot[x]} IN
         IF imp = {} THEN q' = q \ {p} /\ UNCHANGED <<net, pot, dep, ub, lb, dirty, con, ph, src, h>>
         ELSE \E x \in imp :
                /\ pot' = [pot EXCEPT ![x] = pot[p] + W(net, p, x)] /\ dep' = [dep EXCEPT ![x] = dep[p] + 1]
                /\ IF x = src \/ dep'[x] > Cardinality(P) THEN con' = FALSE /\ ph' = "idle" /\ q' = {} /\ src' = "-" ELSE q' = q \cup {x} /\ UNCHANGED <<con, ph, src>>
                /\ UNCHANGED <<net, ub, lb, dirty, h>>
BfDone == /\ ph \in {"bf", "tell"} /\ q = {} /\ con' = TRUE /\ UNCHANGED <<net, pot, dep, dirty, h>>
          /\ IF src = "-" THEN ph' = "up" /\ q' = {"o"} /\ ub' = [p \in P |-> IF p = "o" THEN 0 ELSE INF] /\ lb' = [p \in P |-> IF p = "o" THEN 0 ELSE -INF] /\ src' = src
             ELSE \* the bounds start where an edge improves one (only the new edge can)
                  LET imp == {e \in P \X P : Sum(ub[e[1]], W(net, e[1], e[2])) < ub[e[2]]} IN
                  /\ IF imp = {} THEN UNCHANGED ub /\ q' = {} ELSE \E e \in imp : ub' = [ub EXCEPT ![e[2]] = ub[e[1]] + W(net, e[1], e[2])] /\ q' = {e[2]}
                  /\ ph' = "up" /\ UNCHANGED <<lb, src>>
UpStep == /\ ph = "up" /\ q # {} /\ \E p \in q :
                 LET imp == {x \in P : Sum(ub[p], W(net, p, x)) < ub[x]} IN
                 IF imp = {} THEN q' = q \ {p} /\ UNCHANGED <<net, pot, dep, ub, lb, dirty, con, ph, src, h>>
                 ELSE \E x \in imp : ub' = [ub EXCEPT ![x] = ub[p] + W(net, p, x)] /\ q' = q \cup {x} /\ UNCHANGED <<net, pot, dep, lb, dirty, con, ph, src, h>>
UpDone == /\ ph = "up" /\ q = {} /\ ph' = "down" /\ UNCHANGED <<net, pot, dep, ub, dirty, con, src, h>>
          /\ IF src = "-" THEN q' = {"o"} /\ UNCHANGED lb
             ELSE LET imp == {e \in P \X P : lb[e[1]] > -INF /\ W(net, e[2], e[1]) < INF /\ lb[e[1]] - W(net, e[2], e[1]) > lb[e[2]]} IN
                  IF imp = {} THEN UNCHANGED lb /\ q' = {} ELSE \E e \in imp : lb' = [lb EXCEPT ![e[2]] = lb[e[1]] - W(net, e[2], e[1])] /\ q' = {e[2]}
DownStep == /\ ph = "down" /\ q # {} /\ \E p \in q :
                 LET imp == {x \in P : lb[p] > -INF /\ W(net, x, p) < INF /\ lb[p] - W(net, x, p) > lb[x]} IN
                 IF imp = {} THEN q' = q \ {p} /\ UNCHANGED <<net, pot, dep, ub, lb, dirty, con, ph, src, h>>
                 ELSE \E x \in imp : lb' = [lb EXCEPT ![x] = lb[p] - W(net, x, p)] /\ q' = q \cup {x} /\ UNCHANGED <<net, pot, dep, ub, dirty, con, ph, src, h>>
DownDone == /\ ph = "down" /\ q = {} /\ ph' = "idle" /\ src' = "-" /\ UNCHANGED <<net, pot, dep, ub, lb, dirty, con, q, h>>
Next == Op \/ Bf \/ BfDone \/ UpStep \/ UpDone \/ DownStep \/ DownDone
Spec == Init /\ [][Next]_vars
Settled == ph = "idle" /\ ~dirty
Verdict == Settled => (con <=> Cons(Dists(net), net))
Exact == (Settled /\ con) => LET D == Dists(net) IN \A p \in P : ub[p] = Ub(D, p) /\ lb[p] = Lb(D, p)
\* the potentials of a consistent settled network order it: no edge improves them
Potentials == (Settled /\ con) => \A a, b \in P : W(net, a, b) < INF => pot[b] <= pot[a] + W(net, a, b)
\* a propagation is finite: the depth never gets past the number of points by more than one
Bounded == \A p \in P : dep[p] <= Cardinality(P) + 1
============================================================================
