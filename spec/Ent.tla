------------------------------- MODULE Ent -------------------------------
(* Identity contracts (U02): entities with reference counts, handles to objects, interned strings
   (sequences of character codes), and a priority queue.                                       *)
EXTENDS VUtil
\* --- entities: name -> [key, ref, live]
EntNew(s, n, k) == (n :> [key |-> k, ref |-> 1, live |-> TRUE]) @@ s
EntInc(s, n) == [s EXCEPT ![n].ref = @ + 1]
EntDec(s, n) == [s EXCEPT ![n].ref = IF @ = 0 THEN 0 ELSE @ - 1]
EntDel(s, n) == [s EXCEPT ![n] = [@ EXCEPT !.live = FALSE, !.ref = 0]]
CanDelete(s, n) == s[n].ref < 2
LiveEnts(s) == {n \in DOMAIN s : s[n].live}
KeysUnique(s) == \A m, n \in DOMAIN s : m # n => s[m].key # s[n].key
\* --- handles: handle -> object number (0 is "no object"); an object is managed until removed
HEmpty == [h |-> EmptyFn, managed |-> {}, derived |-> {}, next |-> 1]
HNew(s, n, d) == [s EXCEPT !.h = (n :> s.next) @@ @, !.managed = @ \cup {s.next}, !.derived = IF d THEN @ \cup {s.next} ELSE @, !.next = @ + 1]
HCopy(s, n, m) == [s EXCEPT !.h = (m :> s.h[n]) @@ @]
HValid(s, n) == s.h[n] # 0 /\ s.h[n] \in s.managed
HRelease(s, n) == IF HValid(s, n) THEN [s EXCEPT !.managed = @ \ {s.h[n]}, !.h[n] = 0] ELSE s
\* --- strings
RECURSIVE SeqLess(_, _)
SeqLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE SeqLess(Tail(a), Tail(b))
Contains(a, b) == \E i \in 0 .. (Len(a) - Len(b)) : SubSeq(a, i + 1, i + Len(b)) = b
\* the pieces between delimiters (empty pieces do not count)
Split(x, d) ==
  LET D == Range(d)
      step(acc, c) == IF c \in D THEN [acc EXCEPT !.w = <<>>, !.r = IF acc.w = <<>> THEN @ ELSE Append(@, acc.w)]
                      ELSE [acc EXCEPT !.w = Append(@, c)]
      RECURSIVE go(_, _)
      go(acc, i) == IF i > Len(x) THEN acc ELSE go(step(acc, x[i]), i + 1)
      z == go([w |-> <<>>, r |-> <<>>], 1)
  IN IF z.w = <<>> THEN z.r ELSE Append(z.r, z.w)
\* --- priority queue: set of [i, k]
QMin(s) == {x \in s : \A y \in s : x.k <= y.k}
QTake(s, i) == {x \in s : x.i # i}
==========================================================================
