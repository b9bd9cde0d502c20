------------------------------- MODULE Graphs -------------------------------
(* Finite simple graphs over the nodes 1..n, given by an adjacency function.   *)
(* Everything else in this directory speaks about graphs through this module.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ToSet(s) == { s[i] : i \in DOMAIN s }

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s, i - 1)
Sum(s) == SumSeq(s, Len(s))

\* adjacency function of a sequence of neighbour sequences (as the harnesses log it)
Adj(nbrs) == TLCEval([i \in 1..Len(nbrs) |-> ToSet(nbrs[i]) \ {i}])

\* adjacency function of a set of pairs over 1..n; loops are ignored
AdjOfEdges(n, E) ==
    TLCEval([i \in 1..n |-> { j \in 1..n : j # i /\ (<<i, j>> \in E \/ <<j, i>> \in E) }])

Nodes(adj) == DOMAIN adj

RECURSIVE Closure(_, _, _, _)
\* the nodes of C reachable from seen through C, front being the unexplored part of seen
Closure(adj, C, front, seen) ==
    IF front = {} THEN seen
    ELSE LET new == ((UNION { adj[q] : q \in front }) \cap C) \ seen
         IN  Closure(adj, C, new, seen \cup new)

\* the connected component of q within the set C
ComponentOf(adj, C, q) == Closure(adj, C, {q}, {q})

Connected(adj, C) ==
    \/ C = {}
    \/ LET q == CHOOSE x \in C : TRUE IN ComponentOf(adj, C, q) = C

\* some edge of the graph joins A and B
Touch(adj, A, B) == \E p \in A : adj[p] \cap B # {}

NumEdges(adj) ==
    LET deg == TLCEval([i \in DOMAIN adj |-> Cardinality(adj[i])])
    IN  IF Len(deg) = 0 THEN 0 ELSE Sum(deg) \div 2
=============================================================================
