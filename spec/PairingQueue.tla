---------------------------- MODULE PairingQueue ----------------------------
(* The priority queue of the searches, a pairing heap of nodes in a pool, as   *)
(* pairing_queue.hpp keeps it: next is the sibling, desc the first child.      *)
(* What it means is a bag of keys, top being a least one.  Keys are compared   *)
(* lexicographically (<<distance, dirt>>).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, K, D

Keys == { <<a, b>> : a \in 1..K, b \in 1..D }
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

VARIABLES key, next, desc, root, count, bag, popped
vars == <<key, next, desc, root, count, bag, popped>>

H == [key |-> key, next |-> next, desc |-> desc]

\* 0 is the null pointer.  Each returns [h |-> heap, r |-> root].
Under(h, x, y) == [h |-> [h EXCEPT !.next[y] = h.desc[x], !.desc[x] = y], r |-> x]
\* y loses ties
MergeUnsafe(h, x, y) == IF Less(h.key[x], h.key[y]) THEN Under(h, x, y) ELSE Under(h, y, x)
Cut(p) == [p EXCEPT !.h.next[p.r] = 0]
Merge(h, x, y) == IF y = 0 THEN [h |-> h, r |-> x] ELSE Cut(MergeUnsafe(h, x, y))

RECURSIVE Pairs(_, _, _)
Pairs(h, a, r) ==
    IF a = 0 THEN [h |-> h, r |-> r]
    ELSE LET b == h.next[a] IN
         IF b = 0 THEN MergeUnsafe(h, a, r)
         ELSE LET c == h.next[b]
                  p == Cut(MergeUnsafe(h, a, b))
                  q == MergeUnsafe(p.h, p.r, r)
              IN  Pairs(q.h, c, q.r)
MergePairs(h, a) ==
    LET r == h.next[a] IN
    IF r = 0 THEN [h |-> h, r |-> a]
    ELSE LET c == h.next[r]
             p == Cut(MergeUnsafe([h EXCEPT !.next[r] = 0], a, r))
         IN  Pairs(p.h, c, p.r)

Init == /\ key = [i \in 1..N |-> <<0, 0>>] /\ next = [i \in 1..N |-> 0]
        /\ desc = [i \in 1..N |-> 0] /\ root = 0 /\ count = 0
        /\ bag = {} /\ popped = <<>>

Set(p) == /\ key' = p.h.key /\ next' = p.h.next /\ desc' = p.h.desc /\ root' = p.r

Emplace == /\ count < N
           /\ \E k \in Keys :
                LET x == count + 1
                    h == [key |-> [key EXCEPT ![x] = k], next |-> [next EXCEPT ![x] = 0],
                          desc |-> [desc EXCEPT ![x] = 0]]
                IN  Set(Merge(h, x, root)) /\ bag' = bag \cup {x}
           /\ count' = count + 1 /\ popped' = <<>>

Pop == /\ root # 0
       /\ bag' = bag \ {root} /\ popped' = <<root>> /\ count' = count
       /\ IF desc[root] = 0 THEN root' = 0 /\ UNCHANGED <<key, next, desc>>
          ELSE Set(MergePairs(H, desc[root]))

Reset == count > 0 /\ root' = 0 /\ count' = 0 /\ bag' = {} /\ popped' = <<>> /\ UNCHANGED <<key, next, desc>>

Next == Emplace \/ Pop \/ Reset
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ meaning
RECURSIVE Kids(_), Below(_)
Kids(x) == IF x = 0 THEN <<>> ELSE <<x>> \o Kids(next[x])
Below(x) == LET ks == Kids(desc[x])
            IN  <<x>> \o (LET RECURSIVE cat(_)
                              cat(i) == IF i > Len(ks) THEN <<>> ELSE Below(ks[i]) \o cat(i + 1)
                          IN cat(1))
All == IF root = 0 THEN <<>> ELSE Below(root)

\* the heap holds the bag, each once, and is empty only if that is
Holds == /\ { All[i] : i \in DOMAIN All } = bag /\ Len(All) = Cardinality(bag)

\* the root is least
Least == \A x \in bag : root # 0 /\ ~Less(key[x], key[root])
\* a child is no less than its parent
Ordered == \A i \in DOMAIN All : LET ks == Kids(desc[All[i]])
                                 IN \A j \in DOMAIN ks : ~Less(key[ks[j]], key[All[i]])
=============================================================================
