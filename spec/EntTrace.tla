----------------------------- MODULE EntTrace -----------------------------
(* Judges what the real identity services did (U02). *)
EXTENDS Ent, VTrace
VARIABLES l, st
Start(e) == [ep |-> e.ep, i |-> 0, dead |-> FALSE, ents |-> EmptyFn, hs |-> HEmpty, labs |-> EmptyFn, words |-> {}, q |-> {}]
Apply(s, e) ==
  LET n == IF Len(e.a) > 0 THEN e.a[1] ELSE "" IN
  IF Has(e, "skip") THEN s
  ELSE CASE e.op = "new" -> [s EXCEPT !.ents = EntNew(@, n, e.key)]
    [] e.op = "inc" -> [s EXCEPT !.ents = EntInc(@, n)]
    [] e.op = "dec" -> [s EXCEPT !.ents = EntDec(@, n)]
    [] e.op \in {"del", "purge"} -> [s EXCEPT !.ents = EntDel(@, n)]
    [] e.op = "idnew" -> [s EXCEPT !.hs = HNew(@, n, e.n[2] = 1)]
    [] e.op = "idcopy" -> [s EXCEPT !.hs = HCopy(@, n, e.a[2])]
    [] e.op \in {"idrel", "idrem"} -> [s EXCEPT !.hs = HRelease(@, n)]
    [] e.op = "lab" -> [s EXCEPT !.labs = (n :> e.w) @@ @, !.words = @ \cup {e.w}]
    [] e.op = "ins" -> [s EXCEPT !.q = @ \cup {[i |-> e.i, k |-> e.k]}]
    [] e.op = "ext" -> [s EXCEPT !.q = QTake(@, e.r)]
    [] e.op = "reset" -> [s EXCEPT !.q = {}]
    [] OTHER -> s
EntBad(s, e) ==
  UNION {LET w == s.ents[n]  g == e.ents[n] IN
    (IF g.key = w.key /\ g.k THEN {} ELSE {<<"U02.key", n>>}) \cup
    (IF w.live THEN (IF g.found /\ g.me /\ g.in THEN {} ELSE {<<"U02.resolve", n>>}) \cup
                    (IF g.ref = w.ref /\ g.can = CanDelete(s.ents, n) THEN {} ELSE {<<"U02.refcount", n>>})
     ELSE IF g.found THEN {<<"U02.resolve-dead", n>>} ELSE {}) : n \in DOMAIN s.ents}
  \cup (IF KeysUnique(s.ents) THEN {} ELSE {<<"U02.key-unique", "">>})
  \cup (IF e.total = Cardinality(LiveEnts(s.ents)) THEN {} ELSE {<<"U02.registry", ToString(e.total)>>})
HBad(s, e) ==
  (IF e.table = Cardinality(s.hs.managed) THEN {} ELSE {<<"U02.id-table", ToString(e.table)>>}) \cup
  UNION {LET g == e.hs[n] IN
    IF /\ g.valid = HValid(s.hs, n) /\ g.inv = ~HValid(s.hs, n) /\ g.no = (s.hs.h[n] = 0) /\ g.id = (s.hs.h[n] # 0)
       /\ Range(g.eq) = {m \in DOMAIN s.hs.h : s.hs.h[m] = s.hs.h[n]}
    THEN {} ELSE {<<"U02.id", n>>} : n \in DOMAIN s.hs.h}
Judge(o, s, e) ==
  LET n == IF Len(e.a) > 0 THEN e.a[1] ELSE "" IN
  IF Has(e, "skip") THEN {}
  ELSE (IF e.op \in {"new", "inc", "dec", "del", "purge"} THEN EntBad(s, e) ELSE {})
  \cup (IF e.op \in {"idnew", "idcopy", "idrel", "idrem", "idwrap", "idcast"} THEN HBad(s, e) ELSE {})
  \cup (CASE e.op = "dec" -> IF e.r = (s.ents[n].ref = 0) THEN {} ELSE {<<"U02.dec", n>>}
    [] e.op \in {"del", "purge"} -> IF e.p = (e.op = "purge") /\ ~e.q THEN {} ELSE {<<"U02.purging", n>>}
    [] e.op \in {"idrel", "idrem"} -> IF e.ok = HValid(o.hs, n) THEN {} ELSE {<<"U02.id-release", n>>}
    [] e.op = "idwrap" -> IF e.ok THEN {<<"U02.id-twice", n>>} ELSE {}
    [] e.op = "idcast" -> IF e.conv = (s.hs.h[n] \in s.hs.derived) /\ e.ok = e.conv THEN {} ELSE {<<"U02.id-cast", n>>}
    [] e.op = "lab" -> (IF e.s = e.w /\ e.is /\ e.key /\ e.back /\ e.same THEN {} ELSE {<<"U02.intern", n>>}) \cup
                       (IF e.grow = B2I(~e.was) /\ (e.w \in o.words => e.was) THEN {} ELSE {<<"U02.intern-count", n>>})
    [] e.op = "labcmp" -> LET x == s.labs[n]  y == s.labs[e.a[2]] IN
         (IF e.x = x /\ e.y = y THEN {} ELSE {<<"U02.string", n>>}) \cup
         (IF e.lt = SeqLess(x, y) /\ e.gt = SeqLess(y, x) THEN {} ELSE {<<"U02.string-order", n>>}) \cup
         (IF e.eq = (x = y) /\ e.ne = (x # y) /\ e.ke = (x = y) THEN {} ELSE {<<"U02.string-equal", n>>}) \cup
         (IF e.has = Contains(x, y) THEN {} ELSE {<<"U02.contains", n>>})
    [] e.op = "labsplit" -> LET w == Split(s.labs[n], e.d) IN IF e.x = s.labs[n] /\ e.k = Len(w) /\ e.r = w THEN {} ELSE {<<"U02.split", n>>}
    [] e.op = "ext" -> IF (IF o.q = {} THEN e.r = -1 ELSE \E x \in QMin(o.q) : x.i = e.r) THEN {} ELSE {<<"U02.queue", ToString(e.r)>>}
    [] OTHER -> {})
Init == l = 1 /\ st = [ep |-> "", i |-> 0, dead |-> FALSE]
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN st' = Start(e)
           ELSE IF e.op = "end" \/ st.dead THEN st' = [st EXCEPT !.i = @ + 1]
           ELSE IF e.err # "" THEN Report("ERR." \o e.op, st.ep, st.i + 1, e.err) /\ st' = [st EXCEPT !.dead = TRUE]
           ELSE LET s == Apply(st, e) IN
                /\ \A b \in Judge(st, s, e) : Report(b[1], st.ep, st.i + 1, b[2])
                /\ st' = [s EXCEPT !.i = @ + 1]
Spec == Init /\ [][Next]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
