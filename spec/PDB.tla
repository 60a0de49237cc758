-------------------------------- MODULE PDB --------------------------------
(* The plan database: what its operations mean.  State S:
     m    the model: ext[type] = parent or "", tl = timeline types, pred[p] = [ty, par |-> [name |-> domain], sub |-> subgoals]
     ob   object name -> type
     tok  token -> [p predicate, st state, rej, at token it is merged onto or "", ms master or ""]
     dom  variable -> base domain            a variable is <<token or "-", name>>
     spc  variable -> specified value
     con  constraint -> [ty, sc scope]
     seq  timeline -> sequence of tokens;  pc: ordered pairs a constraint is posted for;  ex: pairs asked for explicitly
   A merged token adds its domains, specified values and constraints to the token it is merged onto.  *)
EXTENDS Diff
Num(lo, hi) == [k |-> "n", lo |-> lo, hi |-> hi, vs |-> {}]
Enm(vs) == [k |-> "e", lo |-> 0, hi |-> 0, vs |-> vs]
Cap(a, b) == IF a.k = "n" THEN Num(Max2(a.lo, b.lo), Min2(a.hi, b.hi)) ELSE Enm(a.vs \cap b.vs)
IsEmpty(d) == IF d.k = "n" THEN d.lo > d.hi ELSE d.vs = {}
S0 == [m |-> [pred |-> EmptyFn], ob |-> EmptyFn, tok |-> EmptyFn, dom |-> EmptyFn, spc |-> EmptyFn, con |-> EmptyFn,
       seq |-> EmptyFn, pc |-> {}, ex |-> {}, orph |-> {}, res |-> EmptyFn]
RECURSIVE IsA(_, _, _)
IsA(m, a, b) == a = b \/ (Has(m.ext, a) /\ m.ext[a] # "" /\ IsA(m, m.ext[a], b))
PredIsA(m, p, q) == p = q \/ (m.pred[p].nm = m.pred[q].nm /\ IsA(m, m.pred[p].ty, m.pred[q].ty))
ObjsOf(S, ty) == {o \in DOMAIN S.ob : IsA(S.m, S.ob[o], ty)}
TimelineOf(S, o) == S.ob[o] \in S.m.tl
NumV == {"start", "end", "duration"}
VarsOf(S, p) == {"object"} \cup NumV \cup DOMAIN S.m.pred[p].par
BaseOf(S, p, v) == IF v = "object" THEN Enm(ObjsOf(S, S.m.pred[p].ty)) ELSE IF v \in {"start", "end"} THEN Num(-INF, INF)
                   ELSE IF v = "duration" THEN Num(1, INF) ELSE S.m.pred[p].par[v]
NewTok(S, t, p, rej, ms) ==
  [S EXCEPT !.tok = (t :> [p |-> p, st |-> "inactive", rej |-> rej, at |-> "", ms |-> ms]) @@ @,
            !.dom = [x \in ({t} \X VarsOf(S, p)) |-> BaseOf(S, p, x[2])] @@ @]
Merged(S, t) == {k \in DOMAIN S.tok : S.tok[k].at = t}
Slaves(S, t) == {k \in DOMAIN S.tok : S.tok[k].ms = t}
Rep(S, t) == IF t \in DOMAIN S.tok /\ S.tok[t].at # "" THEN S.tok[t].at ELSE t
RepV(S, x) == <<Rep(S, x[1]), x[2]>>
\* ------------------------------------------------------------------ timelines
Pos(q, t) == CHOOSE i \in DOMAIN q : q[i] = t
Del(q, t) == SelectSeq(q, LAMBDA x : x # t)
InsAt(q, i, t) == SubSeq(q, 1, i - 1) \o <<t>> \o SubSeq(q, i, Len(q))
SeqOf(S, o) == IF Has(S.seq, o) THEN S.seq[o] ELSE <<>>
OnLine(S, o, t) == t \in Range(SeqOf(S, o))
\* a pair of a timeline is <<object, earlier, later>>
Pairs(Q, o, t) == {c \in Q : c[1] = o /\ t \in {c[2], c[3]}}
Adj(S, o) == LET q == SeqOf(S, o) IN {<<o, q[i], q[i + 1]>> : i \in 1..(Len(q) - 1)}
Link(S, o) == [S EXCEPT !.pc = @ \cup Adj(S, o)]     \* consecutive tokens are always ordered
Before(S, o, p, s) ==
  LET q == SeqOf(S, o)
      nq == IF q = <<>> THEN (IF p = s THEN <<p>> ELSE <<p, s>>) ELSE IF p \notin Range(q) THEN InsAt(q, Pos(q, s), p)
            ELSE IF s \notin Range(q) THEN InsAt(q, Pos(q, p) + 1, s) ELSE q
  IN Link([S EXCEPT !.seq = (o :> nq) @@ @, !.ex = @ \cup {<<o, p, s>>}, !.pc = IF p = s THEN @ ELSE @ \cup {<<o, p, s>>}], o)
Unlink(S, o, t) == [S EXCEPT !.seq[o] = Del(@, t), !.pc = @ \ Pairs(@, o, t), !.ex = @ \ Pairs(@, o, t)]
Free(S, o, p, s) ==
  LET ex == S.ex \ {<<o, p, s>>}
      drop == {t \in {p, s} : Pairs(ex, o, t) = {}}
      S1 == [S EXCEPT !.ex = ex]
      S2 == IF p = s THEN S1 ELSE [S1 EXCEPT !.pc = @ \ {<<o, p, s>>}]
      RECURSIVE F(_, _)
      F(X, D) == IF D = {} THEN X ELSE LET t == CHOOSE t \in D : TRUE IN F(Unlink(X, o, t), D \ {t})
  IN IF drop = {} THEN S1 ELSE Link(F(S2, drop), o)
\* the token leaves the timeline (deactivated, deleted): its neighbours become ordered explicitly
Leave(S, o, t) ==
  IF ~OnLine(S, o, t) THEN S ELSE
  LET q == S.seq[o]  i == Pos(q, t)  S1 == Unlink(S, o, t) IN
  IF i = 1 \/ i = Len(q) \/ <<o, q[i - 1], q[i + 1]>> \in S1.pc THEN S1
  ELSE [S1 EXCEPT !.ex = @ \cup {<<o, q[i - 1], q[i + 1]>>}, !.pc = @ \cup {<<o, q[i - 1], q[i + 1]>>}]
RECURSIVE LeaveAll(_, _, _)
LeaveAll(S, O_, t) == IF O_ = {} THEN S ELSE LET o == CHOOSE o \in O_ : TRUE IN LeaveAll(Leave(S, o, t), O_ \ {o}, t)
\* ------------------------------------------------------------------ life cycle
Fresh(S, b) == IF b \notin DOMAIN S.tok THEN b ELSE b \o "#" \o ToString(CHOOSE k \in 2..50 : (b \o "#" \o ToString(k)) \notin DOMAIN S.tok /\ \A j \in 2..(k - 1) : (b \o "#" \o ToString(j)) \in DOMAIN S.tok)
\* carry out the subgoals of a rule: a slave and its constraints each.  ps: names a slave for later subgoals
RECURSIVE Subgoals(_, _, _, _)
Subgoals(S, t, rs, i) ==
  IF i > Len(rs) THEN S ELSE
  LET r == rs[i]
      n == Fresh(S, t \o "/" \o S.m.pred[r.p].nm)
      S1 == NewTok(S, n, r.p, FALSE, t)
      cs == [k \in {n \o ":" \o ToString(j) : j \in 1..Len(r.cs)} |-> LET j == CHOOSE j \in 1..Len(r.cs) : k = n \o ":" \o ToString(j)
             IN [ty |-> r.cs[j][1], sc |-> <<<<IF r.cs[j][2] = "m" THEN t ELSE n, r.cs[j][3]>>, <<IF r.cs[j][4] = "m" THEN t ELSE n, r.cs[j][5]>>>>]]
  IN Subgoals([S1 EXCEPT !.con = cs @@ @], t, rs, i + 1)
Activate(S, t) == Subgoals([S EXCEPT !.tok[t].st = "active"], t, S.m.pred[S.tok[t].p].sub, 1)
Merge(S, t, a) == [S EXCEPT !.tok[t].st = "merged", !.tok[t].at = a]
Reject(S, t) == [S EXCEPT !.tok[t].st = "rejected"]
Scoped(S, t) == {c \in DOMAIN S.con : \E i \in DOMAIN S.con[c].sc : S.con[c].sc[i][1] = t}
Purge(S, t) ==     \* everything that belongs to t goes with it
  [S EXCEPT !.tok = Without(@, t), !.dom = [x \in {x \in DOMAIN @ : x[1] # t} |-> @[x]], !.spc = [x \in {x \in DOMAIN @ : x[1] # t} |-> @[x]],
            !.con = [c \in (DOMAIN @) \ Scoped(S, t) |-> @[c]], !.orph = @ \ {t}]
RECURSIVE Deactivate(_, _), DropSlaves(_, _), Delete(_, _), SplitAll(_, _), Split(_, _)
Split(S, t) == LET a == S.tok[t].at  S1 == [S EXCEPT !.tok[t].st = "inactive", !.tok[t].at = ""]
               IN IF a \in S.orph /\ Merged(S1, a) = {} THEN Delete(S1, a) ELSE S1    \* nobody needs it any more
SplitAll(S, K) == IF K = {} THEN S ELSE LET k == CHOOSE k \in K : TRUE IN SplitAll([S EXCEPT !.tok[k].st = "inactive", !.tok[k].at = ""], K \ {k})
DropSlaves(S, K) ==
  IF K = {} THEN S ELSE LET k == CHOOSE k \in K : TRUE IN
  DropSlaves(IF Merged(S, k) # {} THEN [S EXCEPT !.tok[k].ms = "", !.orph = @ \cup {k}] ELSE Delete(S, k), K \ {k})
Deactivate(S, t) ==
  LET S1 == [SplitAll(S, Merged(S, t)) EXCEPT !.tok[t].st = "inactive"]
      S2 == LeaveAll(S1, DOMAIN S1.seq, t)
      S3 == DropSlaves(S2, Slaves(S2, t))
      own == {c \in DOMAIN S3.con : \E k \in Slaves(S, t) : \E j \in 1..20 : c = k \o ":" \o ToString(j)}   \* what the rule posted goes, even if the slave stays
      S4 == [S3 EXCEPT !.con = [c \in (DOMAIN @) \ own |-> @[c]]]
  IN [S4 EXCEPT !.orph = @ \ {t}]
Delete(S, t) ==
  LET S1 == IF S.tok[t].st = "active" THEN Deactivate([S EXCEPT !.orph = @ \ {t}], t) ELSE IF S.tok[t].st = "merged" THEN Split(S, t) ELSE S IN Purge(S1, t)
Cancel(S, t) == CASE S.tok[t].st = "active" -> Deactivate(S, t) [] S.tok[t].st = "merged" -> Split(S, t) [] OTHER -> [S EXCEPT !.tok[t].st = "inactive"]
\* ------------------------------------------------------------------ what is implied
Own(S, x) == IF x \notin DOMAIN S.spc THEN S.dom[x] ELSE IF S.dom[x].k = "n" THEN Cap(S.dom[x], Num(S.spc[x], S.spc[x])) ELSE Cap(S.dom[x], Enm({S.spc[x]}))
Lines(S, t) == {o \in DOMAIN S.seq : OnLine(S, o, t)}
RECURSIVE CapAll(_, _)
CapAll(d, Q) == IF Q = {} THEN d ELSE LET e == CHOOSE e \in Q : TRUE IN CapAll(Cap(d, e), Q \ {e})
\* what a variable that stands for itself starts from
Start(S, x) == LET d == CapAll(Own(S, x), {Own(S, <<k, x[2]>>) : k \in Merged(S, x[1])})
               IN IF x[2] = "object" THEN CapAll(d, {Enm({o}) : o \in Lines(S, x[1])}) ELSE d
RepVars(S) == {x \in DOMAIN S.dom : x[1] \notin DOMAIN S.tok \/ S.tok[x[1]].at = ""}
\* constraints with their scopes translated
Cons(S) == {[ty |-> S.con[c].ty, sc |-> [i \in DOMAIN S.con[c].sc |-> RepV(S, S.con[c].sc[i])]] : c \in DOMAIN S.con}
           \cup {[ty |-> "precedes", sc |-> <<<<c[2], "end">>, <<c[3], "start">>>>] : c \in S.pc}
NumEdges(B, c) ==
  LET x == c.sc[1]  y == c.sc[2] IN
  CASE c.ty \in {"precedes", "leq", "before"} -> {<<y, x, 0>>}
    [] c.ty \in {"strictlyPrecedes", "lt", "strict"} -> {<<y, x, -1>>}
    [] c.ty \in {"concurrent", "eq"} -> {<<x, y, 0>>, <<y, x, 0>>}
    [] c.ty = "temporalDistance" -> LET d == B[y] IN {<<x, c.sc[3], d.hi>>, <<c.sc[3], x, -d.lo>>}
    [] OTHER -> {}
FinE(E) == {x \in E : x[3] < INF}
RECURSIVE EnumFix(_, _)
EnumFix(D, C) ==
  LET one(x) == Cardinality(D[x].vs) = 1
      cut(x) == {IF c.ty = "eq" THEN D[x].vs \cap D[IF c.sc[1] = x THEN c.sc[2] ELSE c.sc[1]].vs
                 ELSE IF one(IF c.sc[1] = x THEN c.sc[2] ELSE c.sc[1]) THEN D[x].vs \ D[IF c.sc[1] = x THEN c.sc[2] ELSE c.sc[1]].vs ELSE D[x].vs
                 : c \in {c \in C : x \in {c.sc[1], c.sc[2]}}}
      N == TLCEval([x \in DOMAIN D |-> CapAll(D[x], {Enm(v) : v \in cut(x)})])
  IN IF N = D \/ \E x \in DOMAIN N : N[x].vs = {} THEN N ELSE EnumFix(N, C)
\* the implied domains: [ok, d], with E and P the difference system of the numeric variables
Implied(S) ==
  LET RV == RepVars(S)
      B == TLCEval([x \in RV |-> Start(S, x)])
      C == Cons(S)
      NV == {x \in RV : B[x].k = "n"}
      dur == {<<t, "duration">> : t \in DOMAIN S.tok} \cup {c.sc[2] : c \in {c \in C : c.ty = "temporalDistance"}}
      E == FinE(UNION {NumEdges(B, c) : c \in {c \in C : c.sc[1] \in NV}}
                \cup UNION {NumEdges(B, [ty |-> "temporalDistance", sc |-> <<<<x[1], "start">>, x, <<x[1], "end">>>>]) : x \in {x \in NV : x[2] = "duration"}}
                \cup {<<O, x, B[x].hi>> : x \in NV \ dur} \cup {<<x, O, -B[x].lo>> : x \in NV \ dur})
      P == Pts(E)
      EV == RV \ NV
      D == EnumFix([x \in EV |-> B[x]], {c \in C : c.sc[1] \in EV})
      ok == (\A x \in RV : ~IsEmpty(B[x])) /\ (\A x \in EV : D[x].vs # {}) /\ DOk(E, P)
      F == IF ok THEN DFrom(E, P, O) ELSE EmptyFn
      T == IF ok THEN DTo(E, P, O) ELSE EmptyFn
      w(x) == IF x \notin P THEN B[x] ELSE Num(IF T[x] >= INF THEN -INF ELSE -T[x], F[x])
  IN [ok |-> ok, B |-> B, E |-> E, P |-> P, dur |-> dur, d |-> IF ~ok THEN EmptyFn ELSE TLCEval([x \in RV |-> IF x \in EV THEN D[x] ELSE IF x \in dur THEN B[x] ELSE w(x)])]
\* consistent with more edges?
Feasible(I, X) == I.ok /\ LET E == I.E \cup X IN DOk(E, Pts(E))
DistOf(I, a, b) == IF a = b THEN 0 ELSE IF a \notin I.P \/ b \notin I.P THEN INF ELSE DFrom(I.E, I.P, a)[b]
\* ------------------------------------------------------------------ queries
St(t) == <<t, "start">>
En(t) == <<t, "end">>
Dur(t) == <<t, "duration">>
CanPrec(I, a, b) == DistOf(I, En(a), St(b)) >= 0
Overlap(a, b) == ~IsEmpty(Cap(a, b))
Candidates(S, t) == {k \in DOMAIN S.tok : S.tok[k].st = "active" /\ k # t /\ PredIsA(S.m, S.tok[k].p, S.tok[t].p)}
LooseDur(I, t) == Num(Max2(I.B[Dur(t)].lo, IF I.d[En(t)].lo <= -INF \/ I.d[St(t)].hi >= INF THEN -INF ELSE I.d[En(t)].lo - I.d[St(t)].hi),
                      Min2(I.B[Dur(t)].hi, IF I.d[En(t)].hi >= INF \/ I.d[St(t)].lo <= -INF THEN INF ELSE I.d[En(t)].hi - I.d[St(t)].lo))
BndDur(I, t) == LET f == {I.d[St(t)].lo, I.d[St(t)].hi, I.d[En(t)].lo, I.d[En(t)].hi} IN IF f \cap {INF, -INF} = {} THEN LooseDur(I, t) ELSE I.B[Dur(t)]
ExactDur(I, t) == Num(-DistOf(I, En(t), St(t)), DistOf(I, St(t), En(t)))
\* the gap between the end of p and the start of s against the least duration the bounds of t show.  A gap of nothing is only
\* recognised when it follows from a chain of "no later than" relations, by design of the network.
RECURSIVE ZReach(_, _, _)
ZReach(E, A, b) == b \in A \/ LET N == A \cup {x[2] : x \in {x \in E : x[3] = 0 /\ x[1] \in A /\ ~\E y \in E : y[1] = x[1] /\ y[2] = x[2] /\ y[3] < 0}} IN N # A /\ ZReach(E, N, b)
FitsGap(I, t, p, s) == LET d == DistOf(I, En(p), St(s)) IN
  ~ZReach({x \in I.E : x[1] # O /\ x[2] # O}, {En(p)}, St(s)) /\ (I.d[En(t)].lo <= -INF \/ I.d[St(t)].hi >= INF \/ I.d[En(t)].lo - I.d[St(t)].hi = 1 \/ d >= I.d[En(t)].lo - I.d[St(t)].hi)
MergeSame(S, t) == VarsOf(S, S.tok[t].p)
\* every variable's values overlap
Overlaps(S, I, t, k) == \A v \in MergeSame(S, t) : IF v = "duration" THEN Overlap(BndDur(I, t), BndDur(I, k)) ELSE Overlap(I.d[<<t, v>>], I.d[<<k, v>>])
MergeOk(S, t, k) == Implied(Merge(S, t, k)).ok
\* the places of t on timeline o: pairs <<earlier or t, later or t>>
Places(S, o, t) == LET q == SeqOf(S, o) IN IF q = <<>> THEN {<<t, t>>} ELSE {<<t, q[i]>> : i \in 1..Len(q)} \cup {<<q[Len(q)], t>>}
PlaceEdges(S, o, t, c) ==
  LET q == SeqOf(S, o) IN
  IF c[1] = c[2] THEN {} ELSE IF c[1] # t THEN {<<St(t), En(c[1]), 0>>}
  ELSE {<<St(c[2]), En(t), 0>>} \cup (LET i == Pos(q, c[2]) IN IF i = 1 THEN {} ELSE {<<St(t), En(q[i - 1]), 0>>})
PlacePairOk(S, I, o, t, c) ==       \* each relation alone is possible and the gap is wide enough for the token
  LET q == SeqOf(S, o) IN
  IF c[1] = c[2] THEN TRUE ELSE IF c[1] # t THEN CanPrec(I, c[1], t)
  ELSE CanPrec(I, t, c[2]) /\ (LET i == Pos(q, c[2]) IN i = 1 \/ (CanPrec(I, q[i - 1], t) /\ FitsGap(I, t, q[i - 1], c[2])))
============================================================================
