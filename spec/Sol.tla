------------------------------ MODULE Sol ------------------------------
(* The solver: chronological search over decisions.  A solver holds a stack of standing decisions, at
   most one decision it is working on, the choices each decision has left, and the counts its limits
   are applied to.  The same transitions are explored by SolMC and followed, event by event, in
   recorded runs of the real solver (SolTrace).                                                     *)
EXTENDS VUtil
NoLimit == 2000000000
NoAct == [id |-> 0, e |-> "", c |-> "", todo |-> {}, tried |-> 0, max |-> 0, done |-> FALSE]
\* stk: standing decisions | act: the one being worked on | cnt, sf, df: steps, and floors of the limits
S0 == [stk |-> <<>>, act |-> NoAct, cnt |-> 0, sf |-> 0, df |-> 0, ms |-> NoLimit, md |-> NoLimit, exh |-> FALSE, tmo |-> FALSE, fin |-> FALSE]
Working(s) == s.act.id # 0
More(d) == d.todo # {} /\ (d.max <= 0 \/ d.tried < d.max)       \* max: 0 = no limit, -1 = some limit
Depth(s) == Len(s.stk)
Over(s) == s.cnt - s.sf >= s.ms \/ Depth(s) - s.df > s.md
Top(s) == s.stk[Len(s.stk)]
Pop(s) == SubSeq(s.stk, 1, Len(s.stk) - 1)
\* ---- what can happen
CanNew(s) == ~Working(s) /\ ~s.exh
New(s, id, e, todo, max) == [s EXCEPT !.act = [id |-> id, e |-> e, c |-> "", todo |-> todo, tried |-> 0, max |-> max, done |-> FALSE]]
CanTry(s, c) == Working(s) /\ ~s.act.done /\ More(s.act) /\ c \in s.act.todo /\ ~Over(s)
Tried(s, c) == [s.act EXCEPT !.todo = @ \ {c}, !.tried = @ + 1, !.c = c, !.done = TRUE]
Succeed(s, c) == [s EXCEPT !.stk = Append(@, Tried(s, c)), !.act = NoAct, !.cnt = @ + 1]
Fail(s, c) == [s EXCEPT !.act = Tried(s, c), !.cnt = @ + 1]
CanUndo(s) == (Working(s) /\ s.act.done) \/ (~Working(s) /\ s.stk # <<>>)
Undo(s) == IF Working(s) THEN [s EXCEPT !.act.done = FALSE] ELSE [s EXCEPT !.act = [Top(s) EXCEPT !.done = FALSE], !.stk = Pop(s)]
CanDrop(s) == Working(s) /\ ~s.act.done /\ (~More(s.act) \/ (s.act.max = -1 /\ s.act.tried > 0))      \* only when there is nothing left to try
Drop(s) == [s EXCEPT !.act = NoAct]
CanResume(s) == Working(s) /\ ~s.act.done /\ More(s.act)
CanTimeOut(s) == Working(s) /\ ~s.act.done /\ Over(s)
TimeOut(s) == [s EXCEPT !.tmo = TRUE]
CanExhaust(s) == ~Working(s) /\ s.stk = <<>>
Exhaust(s) == [s EXCEPT !.exh = TRUE]
CanComplete(s) == ~Working(s)
\* ---- what the user asks for
Floors(s) == [s EXCEPT !.sf = 0, !.df = Min2(@, Depth(s))]   \* steps are counted anew
Start(s, ms, md) == [s EXCEPT !.sf = s.cnt, !.df = Depth(s), !.ms = ms, !.md = md, !.tmo = FALSE, !.fin = FALSE]
ResetN(s, n) == Floors([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - n), !.act = NoAct, !.cnt = 0, !.exh = FALSE, !.tmo = FALSE, !.fin = FALSE])
Clear(s) == [S0 EXCEPT !.ms = s.ms, !.md = s.md]
\* ---- configuration: which flaws a manager sees, and how it ranks them
Has1(f, v) == f = "" \/ f = v
HasC(f, vs) == f = "" \/ f \in Range(vs)
\* r: static conditions [cls pred var mrel mcls mpred], "" = any; x: a flaw
Static(r, x) == /\ HasC(r.cls, x.cls) /\ Has1(r.pred, x.pred) /\ Has1(r.var, x.var) /\ HasC(r.mcls, x.mcls) /\ Has1(r.mpred, x.mpred)
                /\ (r.mrel = "" \/ x.mrel = r.mrel \/ (r.mrel = "before" /\ x.mrel = "meets") \/ (r.mrel = "after" /\ x.mrel = "met_by"))
NStatic(r) == Cardinality({f \in {"cls", "pred", "var", "mrel", "mcls", "mpred"} : r[f] # ""})
IsVar(x) == Has(x, "fin")
FilterHits(r, x) == Static(r, x) /\
  CASE r.comp = "" -> TRUE
    [] r.comp = "Singleton" -> IsVar(x) /\ ~x.sing
    [] r.comp = "InfiniteDynamicFilter" -> IsVar(x) /\ (x.open \/ x.inf)
    [] r.comp = "ParameterFilter" -> IsVar(x) /\ x.par
    [] r.comp = "LocalVariableFilter" -> IsVar(x) /\ x.loc
    [] r.comp = "TokenMustBeAssignedFilter" -> IsVar(x) /\ x.tok # "" /\ ~x.asg
    [] r.comp = "MasterMustBeInsertedFilter" -> ~IsVar(x) /\ ~x.masg
    [] OTHER -> FALSE
Visible(cfg, m, x) == ~\E r \in Range(cfg.flt) \cup Range(m.flt) : FilterHits(r, x)
Flaws(cfg, m, v) ==
  {x \in Range(IF m.ty = "var" THEN v.vs ELSE v.ts) :
     /\ (IF m.ty = "var" THEN x.fin ELSE IF m.ty = "tok" THEN x.in ELSE x.ord)
     /\ Visible(cfg, m, x)}
AllFlaws(cfg, v) == UNION {Flaws(cfg, m, v) : m \in Range(cfg.mgrs)}
\* handlers: of those that match and whose guards hold, the most specific; among them the one of best priority
Holds(g, vals) == g[1] \in DOMAIN vals /\ vals[g[1]] = g[2]
Guarded(h, x, tv) == IF h.gs = <<>> /\ h.mg = <<>> THEN TRUE
  ELSE x.tok # "" /\ x.tok \in DOMAIN tv /\ (\A g \in Range(h.gs) : Holds(g, tv[x.tok].v))
       /\ (h.mg = <<>> \/ (tv[x.tok].m # "" /\ \A g \in Range(h.mg) : Holds(g, tv[tv[x.tok].m].v)))
Rank(h) == NStatic(h) + Len(h.gs) + Len(h.mg)
Handlers(m, x, tv) == {h \in Range(m.hs) : Static(h, x) /\ Guarded(h, x, tv)}
Best(m, x, tv) == LET H == Handlers(m, x, tv)  top == Mx({Rank(h) : h \in H}) IN {h \in H : Rank(h) = top /\ \A g \in H : Rank(g) = top => h.prio <= g.prio}
Prio(m, x, tv) == (CHOOSE h \in Best(m, x, tv) : TRUE).prio
Ranked(cfg, v) == UNION {{<<x.n, m.ty, Prio(m, x, v.tv)>> : x \in Flaws(cfg, m, v)} : m \in Range(cfg.mgrs)}
==========================================================================
