------------------------------ MODULE EntMC ------------------------------
(* Every short history of entities, handles and queue updates; the path to every transition is replayed. *)
EXTENDS Ent
CONSTANTS Keys, MaxQ, MaxH
VARIABLES s, hs, q, n, part, h
View == <<s, hs, q, n, part>>
K3 == {-1, 0, 2}
E == {"e1", "e2"}
H == {"h1", "h2", "h3"}
Init == s = EmptyFn /\ hs = HEmpty /\ q = {} /\ n = 0 /\ h = "" /\ part \in {"ent", "id", "q"}
Say(op) == h' = h \o op \o ";" /\ PrintT("GEN|" \o h')
DoEnt == part = "ent" /\ UNCHANGED <<hs, q, n, part>> /\
  (\/ \E x \in E \ DOMAIN s : s' = EntNew(s, x, Cardinality(DOMAIN s) + 1) /\ Say("new " \o x)
   \/ \E x \in LiveEnts(s) : (\/ (s[x].ref < 3 /\ s' = EntInc(s, x) /\ Say("inc " \o x))
                               \/ (s' = EntDec(s, x) /\ Say("dec " \o x))
                               \/ (CanDelete(s, x) /\ s' = EntDel(s, x) /\ Say("del " \o x))
                               \/ (s' = EntDel(s, x) /\ Say("purge " \o x))))
DoId == part = "id" /\ UNCHANGED <<s, q, part>> /\ n' = n + 1 /\ n < MaxH /\
  (\/ \E x \in H \ DOMAIN hs.h, d \in {0, 1} : hs' = HNew(hs, x, d = 1) /\ Say("idnew " \o x \o " " \o ToString(d))
   \/ \E x \in DOMAIN hs.h, y \in H \ DOMAIN hs.h : hs' = HCopy(hs, x, y) /\ Say("idcopy " \o x \o " " \o y)
   \/ \E x \in DOMAIN hs.h, o \in {"idrel", "idrem"} : hs' = HRelease(hs, x) /\ Say(o \o " " \o x)
   \/ \E x \in DOMAIN hs.h, o \in {"idwrap", "idcast"} : HValid(hs, x) /\ hs' = hs /\ Say(o \o " " \o x))
DoQ == part = "q" /\ UNCHANGED <<s, hs, part>> /\
  (\/ n < MaxQ /\ n' = n + 1 /\ \E k \in Keys : q' = q \cup {[i |-> n + 1, k |-> k]} /\ Say("ins " \o ToString(n + 1) \o " " \o ToString(k))
   \* entries under one key come back last in, first out
   \/ q # {} /\ (LET m == CHOOSE x \in QMin(q) : \A y \in QMin(q) : y.i <= x.i IN q' = QTake(q, m.i)) /\ n' = n /\ Say("ext")
   \/ q # {} /\ q' = {} /\ n' = n /\ Say("reset"))
Next == DoEnt \/ DoId \/ DoQ
Spec == Init /\ [][Next]_<<s, hs, q, n, part, h>>
Unique == KeysUnique(s)
Referenced == \A x \in DOMAIN s : s[x].live \/ s[x].ref = 0
Handles == \A a, b \in DOMAIN hs.h : hs.h[a] = hs.h[b] => HValid(hs, a) = HValid(hs, b)
Managed == hs.managed \subseteq 1 .. (hs.next - 1)
==========================================================================
