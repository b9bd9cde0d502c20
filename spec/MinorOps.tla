------------------------------ MODULE MinorOps ------------------------------
(* Graph minors by their textbook definition: whatever can be reached from a   *)
(* target graph by deleting vertices, deleting edges and contracting edges.    *)
(* The state carries, for every surviving vertex, the set of target nodes that *)
(* were contracted into it.  Two uses:                                         *)
(*  - model checking ties MinorEmbedding's definition to the textbook one: the *)
(*    tracked sets are always an embedding of the current graph (Witness);     *)
(*  - every reachable graph is a minor of the target by construction, so the   *)
(*    printed states are test vectors for the feasibility filter, which must   *)
(*    accept each, and for the embedding checkers.                             *)
EXTENDS MinorEmbedding, Json, IOUtils

CONSTANTS N,            \* the target has nodes 1..N
          Emit          \* TRUE: print each reachable minor

VARIABLES target,       \* set of edges <<a, b>>, a < b, of the target graph
          parts,        \* set of disjoint connected sets of target nodes
          edges         \* set of {A, B} with A, B in parts

vars == <<target, parts, edges>>

Pairs == { <<a, b>> \in (1..N) \X (1..N) : a < b }

Init == /\ target \in SUBSET Pairs
        /\ parts = { {a} : a \in 1..N }
        /\ edges = { { {e[1]}, {e[2]} } : e \in target }

DeleteVertex == \E A \in parts :
    /\ parts' = parts \ {A}
    /\ edges' = { e \in edges : A \notin e }
    /\ UNCHANGED target

DeleteEdge == \E e \in edges :
    /\ edges' = edges \ {e}
    /\ UNCHANGED <<target, parts>>

Contract == \E e \in edges :
    LET AB == UNION e
        Ren(X) == IF X \in e THEN AB ELSE X
    IN  /\ parts' = { Ren(X) : X \in parts }
        /\ edges' = { f \in { { Ren(X) : X \in g } : g \in edges } : Cardinality(f) = 2 }
        /\ UNCHANGED target

Next == DeleteVertex \/ DeleteEdge \/ Contract
Spec == Init /\ [][Next]_vars

\* ----- the correspondence with MinorEmbedding
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
PartSeq == SetSeq(parts)
Pos(A) == CHOOSE i \in 1..Len(PartSeq) : PartSeq[i] = A
EdgeSeq == LET es == SetSeq(edges) IN
    [i \in 1..Len(es) |-> LET A == CHOOSE X \in es[i] : TRUE
                              B == CHOOSE X \in es[i] : X # A IN <<Pos(A), Pos(B)>>]
Emb == [i \in 1..Len(PartSeq) |-> SetSeq(PartSeq[i])]

Witness == IsEmbedding(Emb, Len(PartSeq), EdgeSeq, AdjOfEdges(N, target))

Vector == [ns |-> Len(PartSeq), sedges |-> EdgeSeq, nt |-> N, tedges |-> SetSeq(target), emb |-> Emb]
EmitVector == ~Emit \/ PrintT("VEC " \o ToJson(Vector))
=============================================================================
