------------------------------- MODULE ResMC -------------------------------
(* A resource whose profile is kept up to date incrementally.  Operations change transactions (activation,
   quantities, times, orderings); a propagation looks at what changed since the last one, adds and drops
   instants, and recomputes levels from the first instant that may be affected on, each from the one before.
   Checked: the formulas of Res.tla give the extremes over every schedule (Extremes); the incremental
   profile equals the one computed from scratch (Fresh); what is reported means what it
   should (Meaning).  The path to every transition is printed and replayed in a real resource.       *)
EXTENDS Res, TLC
CONSTANTS Prof, Toks, Kind, Ops, Pend
VARIABLES m, seen, pro, cs, n, h
vars == <<m, seen, pro, cs, n, h>>
View == <<m, seen, pro, cs, n>>
R0 == IF Kind = "rv" THEN AddRes(M0, "r0", "rv", "ClosedWorldFVDetector", Prof, 1, 2, -1, 2, INF, INF, INF, INF)
      ELSE AddRes(M0, "r0", "ru", "ClosedWorldFVDetector", Prof, 2, 2, 0, 2, INF, INF, INF, INF)
P(k) == CASE k = "k0" -> IF Kind = "ru" THEN [p |-> "use", q |-> <<1, 2>>, s |-> <<0, 2>>, e |-> <<1, 3>>, d |-> <<1, 2>>] ELSE [p |-> "con", q |-> <<1, 2>>, s |-> <<0, 3>>, e |-> <<0, 0>>, d |-> <<0, 0>>]
        [] k = "k1" -> IF Kind = "ru" THEN [p |-> "use", q |-> <<1, 1>>, s |-> <<1, 3>>, e |-> <<2, 4>>, d |-> <<1, 1>>] ELSE [p |-> "pro", q |-> <<1, 2>>, s |-> <<1, 4>>, e |-> <<0, 0>>, d |-> <<0, 0>>]
        [] OTHER -> IF Kind = "ru" THEN [p |-> "use", q |-> <<2, 2>>, s |-> <<0, 2>>, e |-> <<0, 4>>, d |-> <<0, 2>>] ELSE [p |-> "con", q |-> <<2, 2>>, s |-> <<2, 3>>, e |-> <<0, 0>>, d |-> <<0, 0>>]
I2(w) == ToString(w[1]) \o " " \o ToString(w[2])
TokLine(k) == LET x == P(k) IN "tok " \o k \o " " \o x.p \o " " \o I2(x.q) \o " " \o I2(x.s) \o (IF x.p = "use" THEN " " \o I2(x.e) \o " " \o I2(x.d) ELSE "") \o ";"
RECURSIVE Build(_, _), Head_(_)
Build(K, z) == IF K = {} THEN z ELSE LET k == CHOOSE k \in K : TRUE  x == P(k) IN Build(K \ {k}, AddTok(z, k, x.p, x.q, x.s, x.e, x.d, FALSE))
Head_(K) == IF K = {} THEN "" ELSE LET k == CHOOSE k \in K : TRUE IN TokLine(k) \o Head_(K \ {k})
Say(op) == h' = h \o op \o ";" /\ PrintT("GEN|" \o h')
Zero == [v |-> <<0, 0, 0, 0>>]
Init == /\ m = Build(Toks, R0) /\ seen = {} /\ pro = EmptyFn /\ cs = FALSE /\ n = 0
        /\ h = "res r0 " \o Kind \o " ClosedWorldFVDetector " \o Prof \o (IF Kind = "rv" THEN " 1 2 -1 2" ELSE " 2 2 0 2") \o " inf inf inf inf;close;" \o Head_(Toks)
(* ------------------------------- operations ------------------------------- *)
Can(op) == op \in Ops
\* n: operations since the last propagation
To(x, op, c) == n < Pend /\ n' = n + 1 /\ m' = x /\ Time(x).ok /\ cs' = (cs \/ c) /\ UNCHANGED <<seen, pro>> /\ Say(op)
Act == \E k \in Toks : ~m.tok[k].act /\ To([m EXCEPT !.tok[k].act = TRUE], "act " \o k, FALSE)
Cancel == \E k \in Toks : m.tok[k].act /\ To([m EXCEPT !.tok[k].act = FALSE], "cancel " \o k, FALSE)
QSet == Can("q") /\ \E k \in Toks : ~m.tok[k].qs.on /\ m.tok[k].q[1] < m.tok[k].q[2] /\ \E v \in {m.tok[k].q[1], m.tok[k].q[2]} :
           To([m EXCEPT !.tok[k].qs = Some(v)], "qs " \o k \o " " \o ToString(v), FALSE)
QReset == \E k \in Toks : m.tok[k].qs.on /\ To([m EXCEPT !.tok[k].qs = None], "qr " \o k, FALSE)
TSet == Can("t") /\ \E k \in Toks : ~m.tok[k].ss.on /\ \E v \in {m.tok[k].s[1] + 1, m.tok[k].s[2]} :
           To([m EXCEPT !.tok[k].ss = Some(v)], "ts " \o k \o " " \o ToString(v) \o " s", FALSE)
TReset == \E k \in Toks : m.tok[k].ss.on /\ To([m EXCEPT !.tok[k].ss = None], "tr " \o k \o " s", FALSE)
Orders == {<<"c0", "k0", "k1">>, <<"c1", "k1", "k0">>, <<"c2", "k1", "k2">>}
Con == Can("c") /\ \E c \in Orders : c[2] \in Toks /\ c[3] \in Toks /\ c[1] \notin DOMAIN m.con /\ Cardinality(DOMAIN m.con) < 2
           /\ To([m EXCEPT !.con = @ @@ (c[1] :> <<Pt(m, c[2], "s"), Pt(m, c[3], "s"), 0, INF>>)], "con " \o c[1] \o " precedes " \o c[2] \o " s " \o c[3] \o " s", TRUE)
DelCon == \E i \in DOMAIN m.con : To([m EXCEPT !.con = Without(@, i)], "delcon " \o i, TRUE)
(* ------------------------------- propagation ------------------------------- *)
Plain(x) == [id |-> x.id, c |-> x.c, lb |-> x.lb, ub |-> x.ub, lo |-> x.lo, hi |-> x.hi]
Now == LET D == TLCEval(Time(m).D) IN [D |-> D, T |-> Trans(m, D, "r0")]
\* the levels at t from the levels at the instant before: what begins at t and what ends at t
After(v, T, t) ==
  LET b == {x \in T : x.lo = t}  e == {x \in T : x.hi = t}
      cb == Cons(b)  ce == Cons(e)  pb == Prod(b)  pe == Prod(e)
  IN IF Prof = "GroundedProfile"
     THEN <<v[1] + Sum(pe, "lb") - Sum(cb, "ub"), v[2] + Sum(pb, "lb") - Sum(cb, "ub"), v[3] + Sum(pb, "ub") - Sum(cb, "lb"), v[4] + Sum(pb, "ub") - Sum(ce, "lb")>>
     ELSE <<v[1] + Sum(pe, "lb") - Sum(cb, "ub"), v[2] + Sum(pe, "ub") - Sum(cb, "lb"), v[3] + Sum(pb, "lb") - Sum(ce, "ub"), v[4] + Sum(pb, "ub") - Sum(ce, "lb")>>
RECURSIVE Walk(_, _, _, _, _)
Walk(p, v, todo, T, D) == IF todo = {} THEN p ELSE LET t == Mn(todo)  w == IF FlowP(Prof) THEN Levels(Prof, T, D, t) ELSE After(v, T, t)
                          IN Walk((t :> w) @@ p, w, todo \ {t}, T, D)
Propagate ==
  /\ n > 0
  /\ LET w == Now  T == w.T  old == seen  new == {Plain(x) : x \in T}
         chg == {x.lo : x \in (old \ new) \cup (new \ old)}
         from == IF cs /\ FlowP(Prof) THEN -INF ELSE IF chg = {} THEN INF ELSE Mn(chg)
         I == Instants(T)  keep == [t \in {t \in DOMAIN pro : t \in I /\ t < from} |-> pro[t]]
         before == {t \in DOMAIN keep : t < from}
     IN /\ pro' = Walk(IF from = INF THEN [t \in I \cap DOMAIN pro |-> pro[t]] ELSE keep, IF before = {} THEN Zero.v ELSE keep[Mx(before)], {t \in I : t >= from}, T, w.D)
        /\ seen' = new /\ cs' = FALSE /\ n' = 0 /\ UNCHANGED m /\ Say("obs")
Next == Act \/ Cancel \/ QSet \/ QReset \/ TSet \/ TReset \/ Con \/ DelCon \/ Propagate
Spec == Init /\ [][Next]_vars
(* ------------------------------- checked ------------------------------- *)
Settled == n = 0
Fresh == Settled => LET w == Now IN pro = [t \in Instants(w.T) |-> Levels(Prof, w.T, w.D, t)]
\* every schedule of the points, restricted to the transactions
Scheds(w) == LET Ps == {Pt(m, k, "s") : k \in Toks} \cup {Pt(m, k, "e") : k \in Toks}
             IN {f \in [Ps -> 0..4] : \A e \in TEdges(m) : LET a == IF e[1] = O THEN 0 ELSE f[e[1]]  b == IF e[2] = O THEN 0 ELSE f[e[2]] IN b - a <= e[3]}
Lv(f, T, t, up) == SumW({x \in T : f[x.p] <= t}, up)
\* quantities all least or all most
LvQ(f, T, t, q) == LET S == {x \in T : f[x.p] <= t} IN Sum(Prod(S), q) - Sum(Cons(S), q)
Extremes == Settled => LET w == Now  T == w.T  F == Scheds(w) IN
  \A t \in Instants(T) :
     LET lo == Mn({Lv(f, T, t, FALSE) : f \in F})  up == Mx({Lv(f, T, t, TRUE) : f \in F})  L == Levels(Prof, T, w.D, t)
     IN /\ L[1] <= lo /\ up <= L[4]
        /\ (FlowP(Prof) \/ (DOMAIN m.con = {} /\ Kind = "rv")) => L[1] = lo /\ L[4] = up
        /\ Prof = "TimetableProfile" => L[1] <= L[2] /\ L[3] <= L[4]
        /\ Prof = "GroundedProfile" /\ DOMAIN m.con = {} /\ Kind = "rv" =>
             LET f == [p \in {Pt(m, k, "s") : k \in Toks} |-> Lo(w.D, p)] IN L[2] = Lv(f, T, t, FALSE) /\ L[3] = Lv(f, T, t, TRUE)
\* a violation reported is one in every schedule whose quantities are anything allowed; without a flaw no schedule breaks a limit
Meaning == (Settled /\ Prof # "GroundedProfile") => LET w == Now  T == w.T  F == Scheds(w)  J == Judged(m, w.D, "r0")  R == m.res["r0"] IN
  \A t \in DOMAIN J : LET cap == AtTime(R.cap, t)  lim == AtTime(R.lim, t) IN
     /\ J[t].p # "" => \A f \in F : cap[2] + Lv(f, T, t, TRUE) < lim[1] \/ cap[1] + Lv(f, T, t, FALSE) > lim[2]
     /\ ~J[t].f.any => \A f \in F : cap[1] + Lv(f, T, t, FALSE) >= lim[1] /\ cap[2] + Lv(f, T, t, TRUE) <= lim[2]
============================================================================
