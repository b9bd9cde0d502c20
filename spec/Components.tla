----------------------------- MODULE Components -----------------------------
(* The decomposition of a graph into components by union/find, as graph.hpp    *)
(* does it: edges in any order, union by rank, path compression; then each     *)
(* component puts its reserved nodes last.                                     *)
EXTENDS Graphs
CONSTANT N

VARIABLES parent, rank, done, todo, res
vars == <<parent, rank, done, todo, res>>

\* find with path compression: the root, and the parents afterwards
RECURSIVE Find(_, _)
Find(p, x) == IF p[x] = x THEN [p |-> p, r |-> x]
              ELSE LET f == Find(p, p[x]) IN [p |-> [f.p EXCEPT ![x] = f.r], r |-> f.r]

Init == /\ parent = [x \in 1..N |-> x] /\ rank = [x \in 1..N |-> 0]
        /\ done = {} /\ todo \in SUBSET { e \in (1..N) \X (1..N) : e[1] < e[2] }
        /\ res \in SUBSET (1..N)

Union == \E e \in todo :
    LET f == Find(parent, e[1])  g == Find(f.p, e[2]) IN
    /\ todo' = todo \ {e} /\ done' = done \cup {e} /\ res' = res
    /\ IF f.r = g.r THEN parent' = g.p /\ rank' = rank
       ELSE IF rank[f.r] < rank[g.r] THEN parent' = [g.p EXCEPT ![f.r] = g.r] /\ rank' = rank
       ELSE IF rank[f.r] > rank[g.r] THEN parent' = [g.p EXCEPT ![g.r] = f.r] /\ rank' = rank
       ELSE /\ parent' = [g.p EXCEPT ![g.r] = f.r]
            /\ rank' = [rank EXCEPT ![f.r] = @ + 1]
Next == Union
Spec == Init /\ [][Next]_vars

\* two nodes have a root in common iff the edges so far connect them
Right == LET adj == AdjOfEdges(N, done)
             root == [x \in 1..N |-> Find(parent, x).r]
         IN  \A x, y \in 1..N : (root[x] = root[y]) <=> (y \in ComponentOf(adj, 1..N, x))
\* ranks grow towards the roots, so find ends
Ranked == \A x \in 1..N : parent[x] # x => rank[x] < rank[parent[x]]

\* ------------------------------------------------------------ reserved last
Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
RECURSIVE Inner(_, _, _)
Inner(s, front, back) ==
    IF front < back /\ s[front] \in res THEN Inner(Swap(s, front, back - 1), front, back - 1)
    ELSE [s |-> s, back |-> back]
RECURSIVE Sweep(_, _, _)
Sweep(s, front, back) ==
    IF front >= back THEN [s |-> s, back |-> back]
    ELSE LET t == Inner(s, front, back) IN Sweep(t.s, front + 1, t.back)

Sorted == LET s == [i \in 1..N |-> N + 1 - i]
              t == Sweep(s, 1, N + 1)
          IN  /\ \A i \in 1..N : (i < t.back) <=> (t.s[i] \notin res)
              /\ ToSet(t.s) = 1..N
=============================================================================
