---------------------------- MODULE SolTrace ----------------------------
(* Judges recorded runs of the real solver against Sol.tla.
   S01 verdicts | S02 discipline of the search: limits, depth, undo, listeners | S03 flaws in scope, best first *)
EXTENDS Sol, CE, VTrace
VARIABLES l, st
St0 == [s |-> S0, cfg |-> [on |-> FALSE], ep |-> "", i |-> 0, dead |-> FALSE, seen |-> EmptyFn, pure |-> TRUE, gl |-> EmptyFn, cs |-> EmptyFn, only |-> TRUE]
F(tag, x) == {<<tag, x>>}
Sig(s) == [k \in DOMAIN s.stk |-> <<s.stk[k].e, s.stk[k].c>>]
MaxOf(cfg, v, e) ==      \* how many choices the decision may try
  LET ms == {m \in Range(cfg.mgrs) : \E x \in Flaws(cfg, m, v) : x.n = e} IN
  IF ms = {} THEN -1 ELSE LET m == CHOOSE m \in ms : TRUE  x == CHOOSE x \in Flaws(cfg, m, v) : x.n = e IN (CHOOSE h \in Best(m, x, v.tv) : TRUE).max
AnyMax(cfg) == \E m \in Range(cfg.mgrs) : \E h \in Range(m.hs) : h.max > 0
\* ---- one event of the search
Ev(r, x, cfg, v, lost) ==
  LET s == r.s  X(n, b) == [r EXCEPT !.s = n, !.bad = @ \cup b]  w == ToString(x.id) \o " (" \o x.e \o ") " IN
  CASE x.k = "new" ->
        LET mx == IF v.on THEN MaxOf(cfg, v.v, x.e) ELSE IF AnyMax(cfg) THEN -1 ELSE 0
            rk == IF v.on THEN Ranked(cfg, v.v) ELSE {}
        IN X(New(s, x.id, x.e, Range(x.ch), mx),
             (IF CanNew(s) THEN {} ELSE F("S02.listeners", "decision " \o w \o "created while another is being worked on"))
             \cup (IF x.inc THEN F("S01.sound", "a decision is made on an inconsistent plan") ELSE {})
             \cup (IF ~v.on \/ lost THEN {} ELSE
                   LET mine == {f \in rk : f[1] = x.e} IN
                   IF mine = {} THEN F("S03.flaws", x.e \o " is decided but is no flaw in scope")
                   ELSE IF \E f \in mine : \A g \in rk : f[3] <= g[3] THEN {}
                   ELSE F("S03.best", x.e \o " is taken next, of priority " \o ToString({f[3] : f \in mine}) \o " among " \o ToString(rk))))
    [] x.k \in {"ok", "fail"} ->
        X(IF x.k = "ok" THEN Succeed(s, x.c) ELSE Fail(s, x.c),
          (IF s.act.id = x.id THEN {} ELSE F("S02.listeners", "decision " \o w \o "tried instead of " \o ToString(s.act.id)))
          \cup (IF s.act.id # x.id \/ x.c \in s.act.todo THEN {} ELSE F("S01.choices", w \o "tries " \o x.c \o ", left are " \o ToString(s.act.todo)))
          \cup (IF s.act.id # x.id \/ s.act.max <= 0 \/ s.act.tried < s.act.max THEN {} ELSE F("S01.choices", w \o "tries more choices than it may"))
          \cup (IF Over(s) THEN F("S02.limits", "step " \o ToString(s.cnt - s.sf + 1) \o " at depth " \o ToString(Depth(s) - s.df) \o " goes beyond the limits") ELSE {})
          \cup (IF (x.k = "fail") = x.inc THEN {} ELSE F("S01.sound", IF x.inc THEN "an inconsistent plan is kept" ELSE "a consistent plan is given up")))
    [] x.k = "undo" ->
        X(IF CanUndo(s) THEN Undo(s) ELSE s,
          IF CanUndo(s) /\ (IF Working(s) THEN s.act.id ELSE Top(s).id) = x.id THEN {} ELSE F("S02.listeners", "decision " \o w \o "undone out of order"))
    [] x.k = "drop" -> X(s, IF s.act.id # x.id THEN F("S02.listeners", "decision " \o w \o "given up out of order")
                            ELSE IF CanDrop(s) \/ x.inc THEN {} ELSE F("S01.complete", w \o "is given up with choices left: " \o ToString(s.act.todo)))
    [] x.k = "del" -> X(Drop(s), IF s.act.id = x.id THEN {} ELSE F("S02.listeners", "decision " \o w \o "deleted out of order"))
    [] x.k = "resume" -> X(s, IF CanResume(s) /\ s.act.id = x.id THEN {} ELSE F("S01.choices", w \o "is resumed with nothing left to try"))
    [] x.k = "timeout" -> X(TimeOut(s), IF CanTimeOut(s) THEN {} ELSE F("S02.limits", "timeout after " \o ToString(s.cnt - s.sf) \o " steps at depth " \o ToString(Depth(s) - s.df)))
    [] x.k = "exhausted" -> X(Exhaust(s), IF CanExhaust(s) THEN {} ELSE F("S01.exhausted", "decisions are standing"))
    [] x.k = "completed" -> X(s, (IF CanComplete(s) THEN {} ELSE F("S02.listeners", "completed while a decision is pending")) \cup (IF x.inc THEN F("S01.flawless", "success on an inconsistent plan") ELSE {}))
    [] OTHER -> X(s, F("S02.listeners", "unknown event " \o x.k))
RECURSIVE Run(_, _, _, _, _, _)
Run(r, evs, k, cfg, v, lost) == IF k > Len(evs) THEN r ELSE Run(TLCEval(Ev(r, evs[k], cfg, v, lost)), evs, k + 1, cfg, v, lost)
Last(e) == IF e.ev = <<>> THEN "" ELSE e.ev[Len(e.ev)].k
\* ---- a problem over global variables only, judged by enumeration
Val(t) == CHOOSE n \in -99..99 : ToString(n) = t
Space(z) == [k \in DOMAIN z.gl |-> z.gl[k]]
RECURSIVE Assigns(_, _)
Assigns(z, S) == IF S = {} THEN {EmptyFn} ELSE LET x == CHOOSE x \in S : TRUE IN {(x :> v) @@ f : v \in z.gl[x], f \in Assigns(z, S \ {x})}
SatAll(z, f) == \A c \in DOMAIN z.cs : Means(z.cs[c].t, [i \in DOMAIN z.cs[c].sc |-> f[z.cs[c].sc[i]]])
Fixed(z, e) == {x \in DOMAIN z.gl : e.gv[x] # "-"}
Solvable(z, e) == LET fx == Fixed(z, e) IN \E f \in Assigns(z, (DOMAIN z.gl) \ fx) : SatAll(z, [x \in fx |-> Val(e.gv[x])] @@ f)
\* ---- the whole of one operation
View(e) == IF Has(e, "fv") THEN [on |-> TRUE, v |-> e.fv] ELSE [on |-> FALSE]
JView(cfg, v) ==
  LET mine == {x.n : x \in AllFlaws(cfg, v)} IN
  (IF Range(v.fl) = mine /\ Len(v.fl) = Cardinality(Range(v.fl)) THEN {} ELSE F("S03.flaws", "listed " \o ToString(Range(v.fl) \ mine) \o ", missing " \o ToString(mine \ Range(v.fl))))
  \cup (IF v.more = (mine # {}) THEN {} ELSE F("S03.more", IF v.more THEN "flaws are said to remain" ELSE "flaws are said not to remain"))
Judge(z, e) ==         \* an operation of the solver: the new state and what is wrong
  LET v == IF e.op = "step" THEN View(e) ELSE [on |-> FALSE]
      lost == v.on /\ ~\A m \in Range(z.cfg.mgrs) : \A x \in Flaws(z.cfg, m, v.v) : Handlers(m, x, v.v.tv) # {}
      lim(i) == IF e.a[i] = "-" THEN NoLimit ELSE e.n[i]
      s1 == CASE e.op = "solve" -> Start(z.s, lim(1), lim(2))
              [] e.op \in {"sreset", "backjump"} -> [z.s EXCEPT !.act = NoAct, !.exh = FALSE]
              [] e.op = "sclear" -> Clear(z.s)
              [] OTHER -> z.s
      s1b == IF e.op = "step" THEN [s1 EXCEPT !.tmo = FALSE] ELSE s1
      r == Run([s |-> s1b, bad |-> {}], e.ev, 1, z.cfg, v, lost)
      n == IF e.op = "sreset" THEN (IF Len(e.a) > 0 THEN e.n[1] ELSE Depth(z.s)) ELSE 0
      s2 == IF e.op = "sreset" THEN Floors([r.s EXCEPT !.cnt = 0, !.tmo = FALSE]) ELSE IF e.op = "backjump" THEN Floors([r.s EXCEPT !.cnt = 0, !.tmo = FALSE, !.exh = (Last(e) = "exhausted" \/ (r.s.stk = <<>> /\ ~Working(r.s)))]) ELSE r.s
      fin == Last(e)
      bad == (IF v.on THEN JView(z.cfg, v.v) ELSE {})
        \cup (IF e.op = "solve" /\ e.con /\ Has(e, "fv") THEN JView(z.cfg, e.fv) ELSE {})
        \cup (IF e.dep = Depth(s2) /\ [k \in DOMAIN e.st |-> e.st[k][1]] = [k \in DOMAIN s2.stk |-> s2.stk[k].id] THEN {} ELSE F("S02.depth", ToString(e.dep) \o " decisions stand, " \o ToString(Depth(s2)) \o " were announced"))
        \cup (IF e.dep # Depth(s2) \/ \A k \in DOMAIN e.st : e.st[k][2] = s2.stk[k].e /\ e.st[k][3] = s2.stk[k].c THEN {} ELSE F("S02.undo", "a standing decision is no longer in force: " \o ToString(e.st) \o " " \o ToString(Sig(s2))))
        \cup (IF e.cnt = s2.cnt THEN {} ELSE F("S02.depth", "step count " \o ToString(e.cnt) \o " instead of " \o ToString(s2.cnt)))
        \cup (IF e.op # "sreset" \/ Depth(s2) = Depth(z.s) - n THEN {} ELSE F("S02.undo", "reset of " \o ToString(n) \o " leaves depth " \o ToString(Depth(s2))))
        \cup (IF e.op # "backjump" \/ Depth(s2) <= Depth(z.s) - (e.n[1] - B2I(Working(z.s))) THEN {} ELSE F("S02.undo", "backjump leaves depth " \o ToString(Depth(s2))))
        \cup (IF e.xerr = "" THEN {} ELSE F("S01.exhausted", e.xerr))
        \cup (IF e.exh = s2.exh \/ e.xerr # "" THEN {} ELSE F("S01.exhausted", "exhausted is reported as " \o ToString(e.exh)))
        \cup (IF e.op \notin {"solve", "sreset"} \/ e.tmo = s2.tmo THEN {} ELSE F("S02.limits", "timed out is reported as " \o ToString(e.tmo)))
        \cup (IF e.op # "solve" \/ (fin = "completed" /\ e.ret) \/ (fin \in {"exhausted", "timeout"} /\ ~e.ret) THEN {} ELSE F("S01.verdict", "solve returns " \o ToString(e.ret) \o " after " \o fin))
        \cup (IF fin # "completed" \/ e.con THEN {} ELSE F("S01.flawless", "success on an inconsistent plan"))
        \cup (IF fin # "completed" \/ ~Has(e, "fv") \/ ~e.con \/ AllFlaws(z.cfg, e.fv) = {} THEN {} ELSE F("S01.flawless", "success with flaws: " \o ToString({x.n : x \in AllFlaws(z.cfg, e.fv)})))
        \cup (IF ~z.only \/ fin # "completed" \/ ~(\A x \in DOMAIN z.gl : e.gv[x] # "-") \/ SatAll(z, [x \in DOMAIN z.gl |-> Val(e.gv[x])]) THEN {} ELSE F("S01.flawless", "success violates a constraint"))
        \cup (IF ~z.only \/ fin # "exhausted" \/ ~z.pure \/ AnyMax(z.cfg) \/ ~Solvable(z, e) THEN {} ELSE F("S01.exhausted", "there is a solution"))
  IN [s |-> s2, bad |-> r.bad \cup bad]
SolverOp(e) == e.op \in {"step", "solve", "sreset", "backjump", "sclear"}
\* the same decisions stand, so the database is the same
Undo2(z, e) == IF ~e.con \/ e.pj = "" THEN [seen |-> z.seen, bad |-> {}]
  ELSE LET k == ToString(Sig(z.s)) IN
    IF k \in DOMAIN z.seen THEN [seen |-> z.seen, bad |-> IF z.seen[k] = e.pj THEN {} ELSE F("S02.undo", "the database differs from when the same decisions stood")]
    ELSE [seen |-> (k :> e.pj) @@ z.seen, bad |-> {}]
Edit(z, e) ==          \* the database is edited: nothing seen before counts
  LET a == e.a
      gl == IF e.op = "var" THEN (a[1] :> (e.n[3]..e.n[4])) @@ z.gl ELSE z.gl
      g == IF e.op = "con" THEN \A i \in 1..((Len(a) - 2) \div 2) : a[2 * i + 1] = "-" ELSE TRUE
      cs == IF e.op = "con" THEN (IF g THEN (a[1] :> [t |-> a[2], sc |-> [i \in 1..((Len(a) - 2) \div 2) |-> a[2 * i + 2]]]) @@ z.cs ELSE z.cs)
            ELSE IF e.op = "delcon" THEN Without(z.cs, a[1]) ELSE z.cs
      gl2 == IF e.op = "restr" /\ a[1] = "-" THEN [z.gl EXCEPT ![a[2]] = {x \in @ : e.n[3] <= x /\ x <= e.n[4]}] ELSE gl
      idle == z.s.stk = <<>> /\ ~Working(z.s)
  IN [z EXCEPT !.seen = EmptyFn, !.gl = gl2, !.cs = cs, !.only = @ /\ g /\ e.op # "tok", !.pure = @ /\ (idle \/ e.op \in {"con", "var", "obs", "prop"})]
Init == l = 1 /\ st = St0
Bump(z) == [z EXCEPT !.i = @ + 1]
Step(e) ==
  IF st.dead THEN st' = Bump(st)
  ELSE IF e.err = "E:addTemporalConstraint:  source and target are the same" THEN st' = [Bump(st) EXCEPT !.dead = TRUE]     \* the known finding of P02
  ELSE IF e.err # "" THEN Report("ERR." \o e.op, st.ep, st.i + 1, e.err) /\ st' = [Bump(st) EXCEPT !.dead = TRUE]
  ELSE IF Has(e, "skip") THEN st' = Bump(st)
  ELSE IF e.op = "meta" THEN st' = [Bump(st) EXCEPT !.cfg = [on |-> TRUE] @@ e.m.cfg]
  ELSE IF e.op = "look" THEN (\A b \in JView(st.cfg, e.fv) : Report(b[1], st.ep, st.i + 1, b[2])) /\ st' = Bump(st)
  ELSE IF ~SolverOp(e) THEN LET z == IF e.op \in {"prop", "obs", "solver"} THEN st ELSE Edit(st, e)  u == IF Has(e, "pj") THEN Undo2(z, e) ELSE [seen |-> z.seen, bad |-> {}] IN
       (\A b \in u.bad : Report(b[1], st.ep, st.i + 1, b[2])) /\ st' = [Bump(z) EXCEPT !.seen = u.seen, !.dead = u.bad # {}]
  ELSE LET j == Judge(st, e)
           idle == j.s.stk = <<>> /\ ~Working(j.s)
           z == [st EXCEPT !.s = j.s, !.seen = IF e.op = "sclear" THEN EmptyFn ELSE @, !.pure = IF e.op = "sreset" /\ idle THEN TRUE ELSE IF e.op \in {"backjump", "sclear"} THEN e.op = "sclear" ELSE @]
           u == Undo2(z, e)  bad == j.bad \cup u.bad
       IN (\A b \in bad : Report(b[1], st.ep, st.i + 1, b[2])) /\ st' = [Bump(z) EXCEPT !.seen = u.seen, !.dead = bad # {}]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN IF e.op = "begin" THEN st' = [St0 EXCEPT !.ep = e.ep] ELSE IF e.op = "end" THEN
              (IF e.err # "" /\ ~st.dead THEN Report("ERR.end", st.ep, st.i + 1, e.err) ELSE TRUE) /\ st' = [st EXCEPT !.dead = TRUE] ELSE Step(e)
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=========================================================================
