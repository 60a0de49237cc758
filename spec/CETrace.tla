------------------------------ MODULE CETrace ------------------------------
(* Judges recorded runs of the real constraint engine against CE.tla.
   C01 no solution lost | C02 bound and consistent => satisfied | C03 same as a fresh engine
   C04 variable contract | C06 notifications | C07 tolerant mode                                    *)
EXTENDS CE, VTrace, SequencesExt
VARIABLES l, st

NoOb == [act |-> {}, dea |-> {}, vio |-> {}, dom |-> EmptyFn, open |-> FALSE, names |-> EmptyFn, vdea |-> {}]
St0 == [net |-> NoNet, ob |-> NoOb, ep |-> "", i |-> 0, dead |-> FALSE, tol |-> FALSE, lst |-> FALSE, conf |-> FALSE, vio |-> {}, free |-> FALSE]

(* ---------------- the requested operation ---------------- *)
Apply(net, e) ==
  LET a == e.a IN
  IF Has(e, "skip") THEN net ELSE
  CASE e.op \in {"var", "ivar"} -> NewVar(net, a[1], ParseDom(e, 2), e.op = "var")
    [] e.op = "delvar" -> DelVar(net, a[1])
    [] e.op \in {"post", "apost"} -> Post(net, a[1], a[2], Tail2(a, 3))
    [] e.op \in {"delete", "adelete"} -> Unpost(net, a[1])
    [] e.op = "deact" -> [net EXCEPT !.c[a[1]].da = @ + 1]
    [] e.op = "undeact" -> [net EXCEPT !.c[a[1]].da = @ - 1]
    [] e.op = "vdeact" -> [net EXCEPT !.v[a[1]].da = @ + 1]
    [] e.op = "vundeact" -> [net EXCEPT !.v[a[1]].da = @ - 1]
    [] e.op = "spec" -> Specify(net, a[1], e.n[2])
    [] e.op = "reset" -> Reset(net, a[1])
    [] e.op = "close" -> IF e.vs[a[1]].d.m THEN [net EXCEPT !.v[a[1]].b.o = FALSE] ELSE Close(net, a[1])   \* an emptied variable is not specified
    [] e.op = "open" -> LET n2 == Open(net, a[1]) IN [n2 EXCEPT !.t = @ \cup Connected(n2, {a[1]})]   \* opening relaxes nothing
    [] e.op = "insert" -> Insert(net, a[1], e.n[2])
    [] e.op = "remove" -> Remove(net, a[1], e.n[2])
    [] e.op = "restrict" -> Restrict(net, a[1], ParseDom(e, 2))
    [] OTHER -> net

(* ---------------- judging what was reported ---------------- *)
ObsIn(d, x) == ~d.m /\ (d.o \/ (IF d.e THEN \E k \in 1..Len(d.vs) : d.vs[k] = x ELSE d.lo <= x /\ x <= d.hi))
ObsSing(d) == ~d.m /\ ~d.o /\ (IF d.e THEN Len(d.vs) = 1 ELSE d.x /\ d.lo = d.hi)
ObsVal(d) == IF d.e THEN d.vs[1] ELSE d.lo
Small(x) == -1000 < x /\ x < 1000

C01C02(net, e) ==
  LET C == Active(net)
      V == DOMAIN net.v
      comps == Components(net, C, V)
      bad == IF e.inc THEN (IF net.t = {} /\ \A K \in comps : SolsOf(net, C, K) # {} THEN {<<"C01.refuted", "inconsistent though solvable">>} ELSE {})
             ELSE UNION {LET S == SolsOf(net, C, K) IN
                   {<<"C01.lost", v \o " lost " \o ToString({f[v] : f \in S})>> : v \in {v \in K : v \notin net.t /\ net.v[v].da = 0 /\ \E f \in S : ~ObsIn(e.vs[v].d, f[v])}} : K \in comps}
      bound == {c \in C : Known(net.c[c].t) /\ \A v \in Range(net.c[c].s) : ObsSing(e.vs[v].d) /\ Small(ObsVal(e.vs[v].d))}
      wrong == {c \in bound : Contradicts(net.c[c].t, [i \in 1..Len(net.c[c].s) |-> ObsVal(e.vs[net.c[c].s[i]].d)])}
  IN bad \cup (IF e.inc THEN {} ELSE
       {<<"C02.unsatisfied", c \o " " \o net.c[c].t \o ToString([i \in 1..Len(net.c[c].s) |-> ObsVal(e.vs[net.c[c].s[i]].d)])>> : c \in wrong}
       \cup {<<"C02.empty", v>> : v \in {v \in V : e.vs[v].d.m /\ ~net.v[v].b.o /\ net.v[v].da = 0}}
       \cup (IF e.ccon /\ ~e.pend THEN {} ELSE {<<"C02.verdict", "propagated but not reported consistent">>}))
     \cup (IF Has(e, "ret") /\ e.ret = e.inc THEN {<<"C02.verdict", "return value contradicts provenInconsistent">>} ELSE {})

(* propagators whose pruning depends on the order of execution: sound, but with more than one fixpoint *)
Unordered == {"eqMaximum", "eqMinimum", "max", "min", "allMax", "allMin", "absVal"}
\* real bounds are compared up to rounding
SameDom(a, b) == a.r = b.r \/ (~a.m /\ ~b.m /\ Has(a, "ql") /\ Has(b, "ql") /\ AbsI(a.ql - b.ql) <= 10 /\ AbsI(a.qh - b.qh) <= 10)
C03(net, e) ==
  LET uns == Connected(net, UNION {Range(net.c[c].s) : c \in {c \in DOMAIN net.c : net.c[c].t \in Unordered \/ Cardinality(Range(net.c[c].s)) < Len(net.c[c].s)}}) IN      \* nor when a variable is repeated
  IF ~Has(e, "fok") THEN {}
  ELSE IF e.fok = e.inc THEN IF net.t # {} \/ uns # {} THEN {} ELSE {<<"C03.verdict", IF e.inc THEN "inconsistent, fresh engine consistent" ELSE "consistent, fresh engine inconsistent">>}
  ELSE IF e.inc THEN {}
  ELSE {<<"C03.domain", v \o " " \o e.vs[v].d.r \o " fresh " \o e.fr[v].r>> : v \in {v \in DOMAIN net.v : v \notin net.t \cup uns /\ net.v[v].da = 0 /\ ~SameDom(e.vs[v].d, e.fr[v])}}

SameBase(D, b) ==
  /\ D.o = b.o
  /\ IF D.e THEN b.e /\ {b.vs[k] : k \in 1..Len(b.vs)} = D.vs ELSE ~b.e /\ b.lo = D.lo /\ b.hi = D.hi
C04(net, e, s) ==
  UNION {LET vr == net.v[v]  o == e.vs[v] IN
      (IF SameBase(vr.b, o.b) THEN {} ELSE {<<"C04.base", v \o " base " \o o.b.r \o " expected " \o ToString(vr.b)>>})
      \cup (IF o.sp = vr.sp /\ (vr.sp => o.sv = vr.sv) THEN {} ELSE {<<"C04.specified", v \o " " \o ToString(o.sp) \o " expected " \o ToString(vr.sp) \o ToString(vr.sv)>>})
      \cup (IF o.cl = ~vr.b.o THEN {} ELSE {<<"C04.closed", v>>})
      \cup (IF o.ac = (vr.da = 0) THEN {} ELSE {<<"C04.active", v>>})
      \cup (IF o.d.m \/ vr.b.o \/ (IF o.d.e THEN \A k \in 1..Len(o.d.vs) : InDom(vr.b, o.d.vs[k]) ELSE o.d.lo > o.d.hi \/ (InDom(vr.b, o.d.lo) /\ InDom(vr.b, o.d.hi)))
            THEN {} ELSE {<<"C04.outside", v \o " " \o o.d.r \o " not within " \o o.b.r>>})
      \cup (IF vr.sp /\ ~o.d.m /\ ~(ObsSing(o.d) /\ ObsVal(o.d) = vr.sv) THEN {<<"C04.fixed", v \o " specified " \o ToString(vr.sv) \o " current " \o o.d.r>>} ELSE {})
    : v \in DOMAIN net.v}
  \cup {<<"C04.participates", c \o IF e.cs[c].ac THEN " active" ELSE " inactive">> : c \in {c \in DOMAIN net.c : e.cs[c].ac /\ CDeact(net, c) > 0}}
  \cup {<<"C04.participates", c \o " inactive">> : c \in {c \in DOMAIN net.c : ~e.cs[c].ac /\ ~e.cs[c].rd /\ ~e.cs[c].vi /\ CDeact(net, c) = 0}}
  \cup {<<"C04.scope", v>> : v \in {v \in DOMAIN net.v : e.vs[v].nc < SumFn([c \in DOMAIN net.c |-> Cardinality({i \in 1..Len(net.c[c].s) : net.c[c].s[i] = v})])}}
(* ---------------- C06: an observer fed with the notifications only ---------------- *)
DSub(a, b) == \* a subset of b
  a.m \/ (~b.m /\ (IF a.e THEN \A k \in 1..Len(a.vs) : ObsIn(b, a.vs[k]) ELSE a.lo > a.hi \/ (b.lo <= a.lo /\ a.hi <= b.hi)))
KindOk(t, p, d) ==                 \* p: the observer's domain before, d: reported with the notification
  CASE t = "UPPER_BOUND_DECREASED" -> ~d.m /\ d.lo = p.lo /\ d.hi <= p.hi /\ d.r # p.r
    [] t = "LOWER_BOUND_INCREASED" -> ~d.m /\ d.hi = p.hi /\ d.lo >= p.lo /\ d.r # p.r
    [] t = "BOUNDS_RESTRICTED" -> (d.m => p.m) /\ DSub(d, p)
    [] t = "VALUE_REMOVED" -> (~d.m \/ d.o) /\ DSub(d, p) /\ d.r # p.r
    [] t = "RESTRICT_TO_SINGLETON" -> ~d.m /\ d.lo >= d.hi /\ DSub(d, p)
    [] t = "SET_TO_SINGLETON" -> ~d.m /\ d.lo >= d.hi /\ ~d.o
    [] t = "RELAXED" -> DSub(p, d)
    [] t = "RESET" -> DSub(p, d) 
    [] t = "EMPTIED" -> d.m
    [] t = "CLOSED" -> ~d.o
    [] t = "OPENED" -> d.o
    [] OTHER -> FALSE
(* acc = [ob, f]: fold over the notifications of one event *)
CId(n, net, e) == IF n.id # "" THEN n.id ELSE IF Has(e, "key") /\ Has(n, "key") /\ n.key = e.key THEN e.a[1] ELSE "?"
Note(acc, n, net, e) ==
  LET ob == acc.ob
      bad(tag, msg) == [acc EXCEPT !.f = @ \cup {<<tag, msg>>}]
      to(o2) == [acc EXCEPT !.ob = o2]
      c == CId(n, net, e)
      is(k) == n.k = k \/ n.k = k \o "?"
  IN
  CASE n.k = "start" -> IF ob.open THEN bad("C06.bracket", "propagation started twice") ELSE to([ob EXCEPT !.open = TRUE])
    [] n.k \in {"done", "stop"} -> IF ~ob.open THEN bad("C06.bracket", "propagation ended without start") ELSE to([ob EXCEPT !.open = FALSE])
    [] is("cexe") -> IF ~ob.open THEN bad("C06.executed", "executed outside propagation") ELSE IF c # "?" /\ c \notin ob.act THEN bad("C06.executed", c \o " executed while not active") ELSE acc
    [] c = "?" /\ (is("cadd") \/ is("crem") \/ is("cact") \/ is("cdea") \/ is("vadd") \/ is("vrem")) -> acc  \* parts of composite constraints
    [] is("cadd") -> IF c \in ob.act \cup ob.dea THEN bad("C06.added", "unexpected addition " \o c) ELSE to([ob EXCEPT !.act = @ \cup {c}])
    [] is("crem") -> IF c \notin ob.act \cup ob.dea THEN bad("C06.removed", "unexpected removal " \o c) ELSE to([ob EXCEPT !.act = @ \ {c}, !.dea = @ \ {c}, !.vio = @ \ {c}])
    [] is("cact") -> IF c \notin ob.dea /\ ~(c \in DOMAIN e.cs /\ (e.cs[c].rd \/ \A v \in Range(net.c[c].s) : IsSing(net.v[v].b))) THEN bad("C06.activated", "unexpected activation " \o c) ELSE to([ob EXCEPT !.act = @ \cup {c}, !.dea = @ \ {c}])
    [] is("cdea") -> IF c \notin ob.act THEN bad("C06.deactivated", "unexpected deactivation " \o c) ELSE to([ob EXCEPT !.act = @ \ {c}, !.dea = @ \cup {c}])
    [] is("vadd") -> IF c \in ob.vio THEN bad("C06.violation", "violation announced twice " \o c) ELSE to([ob EXCEPT !.vio = @ \cup {c}])
    [] is("vrem") -> IF c \notin ob.vio THEN bad("C06.violation", "violation removal of unviolated " \o c) ELSE to([ob EXCEPT !.vio = @ \ {c}])
    [] n.k = "vdea" -> IF n.id \in ob.vdea THEN bad("C06.vdeactivated", n.id) ELSE to([ob EXCEPT !.vdea = @ \cup {n.id}])
    [] n.k = "vact" -> IF n.id \notin ob.vdea THEN bad("C06.vactivated", n.id) ELSE to([ob EXCEPT !.vdea = @ \ {n.id}])
    [] n.k = "vdel" -> IF n.id \notin DOMAIN ob.dom THEN bad("C06.vremoved", n.id) ELSE to([ob EXCEPT !.dom = Without(@, n.id)])
    [] n.k = "chg" ->
         LET known == n.id \in DOMAIN ob.dom
             p == ob.dom[n.id]
             o2 == [ob EXCEPT !.dom = (n.id :> n.d) @@ @]
         IN IF known /\ ~KindOk(n.t, p, n.d) THEN [ob |-> o2, f |-> acc.f \cup {<<"C06.kind", n.id \o " " \o n.t \o " from " \o p.r \o " to " \o n.d.r>>}]
            ELSE to(o2)
    [] OTHER -> acc
Notes(acc0, q, net, e) == FoldLeft(LAMBDA acc, n : Note(acc, n, net, e), acc0, q)
Silent(net, e) ==                  \* variables whose changes in this event need no announcement
  {v \in DOMAIN net.v : net.v[v].da > 0} \cup (IF e.op \in {"var", "ivar", "insert", "vundeact", "vdeact"} THEN {e.a[1]} ELSE {})
C06(s, net, e) ==
  IF ~Has(e, "nt") THEN [ob |-> s.ob, f |-> {}]
  ELSE LET r == Notes([ob |-> s.ob, f |-> {}], e.nt, net, e)
           ob == r.ob
           quiet == Silent(net, e)
           f2 == {<<"C06.unannounced", v \o " observer has " \o ob.dom[v].r \o " engine has " \o e.vs[v].d.r>> :
                    v \in {v \in (DOMAIN net.v \ quiet) \cap DOMAIN ob.dom : ob.dom[v].r # e.vs[v].d.r}}
           f3 == {<<"C06.constraints", c>> : c \in {c \in DOMAIN net.c : e.cs[c].ac # (c \in ob.act)}}
                 \cup {<<"C06.constraints", c>> : c \in ((ob.act \cup ob.dea) \ DOMAIN net.c)}
                 \cup {<<"C06.constraints", c>> : c \in (DOMAIN net.c \ (ob.act \cup ob.dea))}
                 \cup {<<"C06.variables", v>> : v \in {v \in DOMAIN net.v : e.vs[v].ac = (v \in ob.vdea)}}
                 \cup {<<"C06.variables", v>> : v \in (DOMAIN ob.dom \ DOMAIN net.v)}
                 \cup {<<"C06.violated", c>> : c \in {c \in DOMAIN net.c : e.cs[c].vi # (c \in ob.vio)}}
           f4 == IF ob.open THEN {<<"C06.bracket", "propagation did not end">>} ELSE {}
           f5 == IF e.op \in {"var", "ivar"} /\ Cardinality({k \in 1..Len(e.nt) : e.nt[k].k = "vnew?"}) # 1 THEN {<<"C06.vadded", e.a[1]>>} ELSE {}
           f6 == IF e.op = "delvar" /\ Cardinality({k \in 1..Len(e.nt) : e.nt[k].k \in {"vdel", "vdel?"}}) # 1 THEN {<<"C06.vremoved", e.a[1]>>} ELSE {}
       IN [ob |-> [ob EXCEPT !.open = FALSE, !.dom = [v \in DOMAIN net.v |-> e.vs[v].d],
                             !.act = {c \in DOMAIN net.c : e.cs[c].ac}, !.dea = {c \in DOMAIN net.c : ~e.cs[c].ac},
                             !.vdea = {v \in DOMAIN net.v : ~e.vs[v].ac}, !.vio = {c \in DOMAIN net.c : e.cs[c].vi}],
           f |-> r.f \cup f2 \cup f3 \cup f4 \cup f5 \cup f6]

(* ---------------- C07: tolerant mode ---------------- *)
Unsat(net) == LET C == Active(net) IN \E K \in Components(net, C, DOMAIN net.v) : SolsOf(net, C, K) = {}
(* s.conf: the network has been unsatisfiable when propagated; until then the ordinary mode's results are due.
   s.vio: violated constraints before this event *)
C07(s, net, e, unsat) ==
  LET vio == {c \in DOMAIN net.c : e.cs[c].vi}
      C == Active(net)
      V == DOMAIN net.v
      bound == {c \in C \ vio : Known(net.c[c].t) /\ \A v \in Range(net.c[c].s) : ObsSing(e.vs[v].d) /\ Small(ObsVal(e.vs[v].d))}
      wrong == {c \in bound : Contradicts(net.c[c].t, [i \in 1..Len(net.c[c].s) |-> ObsVal(e.vs[net.c[c].s[i]].d)])}
      lost == IF s.conf \/ unsat THEN {} ELSE UNION {LET S == SolsOf(net, C, K) IN {v \in K : v \notin net.t /\ net.v[v].da = 0 /\ \E f \in S : ~ObsIn(e.vs[v].d, f[v])} : K \in Components(net, C, V)}
  IN (IF e.nviol # Cardinality(vio) \/ (e.viol = 0) # (vio = {}) THEN {<<"C07.count", ToString(e.nviol) \o " reported, total " \o ToString(e.viol) \o ", violated " \o ToString(vio)>>} ELSE {})
     \cup {<<"C07.empty", v>> : v \in {v \in V : e.vs[v].d.m}}
     \cup (IF vio # {} /\ ~s.conf /\ ~unsat THEN {<<"C07.spurious", ToString(vio)>>} ELSE {})
     \cup (IF vio = {} /\ unsat /\ \A v \in V : ObsSing(e.vs[v].d) THEN {<<"C07.missed", "">>} ELSE {})
     \cup (IF Cardinality(s.vio) = 1 /\ s.vio = vio /\ e.op = "prop" /\ s.free /\ ~unsat THEN {<<"C07.stuck", ToString(vio)>>} ELSE {})
     \cup {<<"C07.lost", v \o " " \o e.vs[v].d.r>> : v \in lost}
     \cup {<<"C07.unsatisfied", c>> : c \in wrong}
     \cup (IF e.inc THEN {<<"C07.inconsistent", "reported inconsistent in tolerant mode">>} ELSE {})
RECURSIVE Relaxed(_, _, _)
Relaxed(net, C, W) ==              \* what resetting W relaxes: everything reached without crossing a specified variable
  LET X == W \cup {v \in UNION {Range(net.c[c].s) : c \in {c \in C : Range(net.c[c].s) \cap W # {}}} : ~net.v[v].sp /\ net.v[v].da = 0}
  IN IF X = W THEN W ELSE Relaxed(net, C, X)
Track(s, net, e) ==
  IF ~s.tol THEN s ELSE
  LET vio == {c \in DOMAIN net.c : e.cs[c].vi} IN
  [s EXCEPT !.conf = @ \/ Unsat(net),
            !.vio = IF e.op = "reset" THEN @ ELSE vio,
            !.free = e.op = "reset" /\ LET R == Relaxed(net, Active(net) \ s.vio, {e.a[1]}) IN \E c \in s.vio : c \in DOMAIN net.c /\ Range(net.c[c].s) \cap R # {}]

Judge(s, net, e, c6) ==
  c6.f \cup C04(net, e, s)
  \cup (IF e.prop THEN (IF s.tol THEN C07(s, net, e, Unsat(net)) ELSE C01C02(net, e) \cup C03(net, e)) ELSE {})

Init == l = 1 /\ st = St0
Begin(e) == st' = [St0 EXCEPT !.ep = e.ep, !.tol = "tolerant" \in Range(e.a), !.lst = "listen" \in Range(e.a)]
ErrTag(e) == IF e.op = "crash" THEN "ERR.crash" ELSE "ERR." \o e.op
Step(e) ==
  IF st.dead THEN st' = [st EXCEPT !.i = @ + 1]
  ELSE IF e.err # "" THEN Report(ErrTag(e), st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.i = @ + 1, !.dead = TRUE]
  ELSE LET net == Suspend(st.net, Apply(st.net, e))
           c6 == C06(st, net, e)
           bad == Judge(st, net, e, c6)
       IN /\ \A b \in bad : Report(b[1], st.ep, st.i + 1, b[2])
          /\ st' = [Track(st, net, e) EXCEPT !.i = @ + 1, !.net = net, !.ob = c6.ob]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "begin" THEN Begin(e) ELSE IF e.op = "end" THEN
              (IF e.err # "" /\ ~st.dead THEN Report("ERR.end", st.ep, st.i + 1, e.err) ELSE TRUE) /\ st' = [st EXCEPT !.dead = TRUE] ELSE Step(e)
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
============================================================================
