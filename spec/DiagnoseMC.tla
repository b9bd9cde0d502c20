----------------------------- MODULE DiagnoseMC -----------------------------
(* For all small graphs and maps: there is nothing to list exactly if the map  *)
(* is a minor embedding, and a lister that works through the source nodes one  *)
(* by one, as the code does, lists the faults.                                 *)
EXTENDS Diagnose
CONSTANTS NS, NT        \* source nodes 1..NS; target nodes 1..NT, and one that is not there

SPairs == { <<a, b>> \in (1..NS) \X (1..NS) : a < b }
TPairs == { <<a, b>> \in (1..NT) \X (1..NT) : a < b }
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* chains that a source node may have: any set of nodes, and none at all
Maps == UNION { [D -> SUBSET (1..NT+1)] : D \in SUBSET (1..NS) }

VARIABLES sedges, target, map,      \* the problem
          x, labels, errs, whole    \* the lister: next node, holders seen, listed, chains in full

vars == <<sedges, target, map, x, labels, errs, whole>>
adj == AdjOfEdges(NT, target)
Emb == [v \in DOMAIN map |-> SeqOf(map[v])]

Init == /\ sedges \in { SeqOf(S) : S \in SUBSET SPairs }
        /\ target \in SUBSET TPairs
        /\ map \in Maps
        /\ x = 1 /\ labels = [q \in 1..NT |-> {}] /\ errs = {} /\ whole = {}

Look == /\ x <= NS
        /\ x' = x + 1
        /\ IF x \notin DOMAIN map \/ map[x] = {}
           THEN /\ errs' = errs \cup { Fault("missing", x, 0, 0) }
                /\ UNCHANGED <<labels, whole>>
           ELSE /\ labels' = [q \in 1..NT |-> IF q \in map[x] THEN labels[q] \cup {x} ELSE labels[q]]
                /\ whole' = IF map[x] \subseteq 1..NT THEN whole \cup {x} ELSE whole
                /\ errs' = errs \cup { Fault("node", x, q, 0) : q \in map[x] \ (1..NT) }
                     \cup (IF map[x] \subseteq 1..NT /\ ~Connected(adj, map[x]) THEN {Fault("broken", x, 0, 0)} ELSE {})
        /\ UNCHANGED <<sedges, target, map>>

\* at the end: shared nodes (the first holder with each other), then edges
Finish == /\ x = NS + 1
          /\ x' = x + 1
          /\ errs' = errs
               \cup UNION { IF labels[q] = {} THEN {} ELSE
                            LET r == CHOOSE v \in labels[q] : TRUE IN
                            { Fault("overlap", q, r, v) : v \in labels[q] \ {r} } : q \in 1..NT }
               \cup { Fault("edge", sedges[k][1], sedges[k][2], 0) : k \in
                        { l \in DOMAIN sedges : {sedges[l][1], sedges[l][2]} \subseteq whole
                             /\ ~\E e \in target : \/ sedges[l][1] \in labels[e[1]] /\ sedges[l][2] \in labels[e[2]]
                                                   \/ sedges[l][1] \in labels[e[2]] /\ sedges[l][2] \in labels[e[1]] } }
          /\ UNCHANGED <<sedges, target, map, labels, whole>>

Next == Look \/ Finish
Spec == Init /\ [][Next]_vars

AllFaults == Faults(Emb, NS, sedges, adj)
Definition == (AllFaults = {}) = (DOMAIN map = 1..NS /\ (\A v \in DOMAIN map : map[v] # {}) /\ IsEmbedding(Emb, NS, sedges, adj))
Listed == x = NS + 2 => Reports(errs, AllFaults) = {}
\* while it works, everything on the list is a fault
Sound == \A e \in errs : True(e, AllFaults)
=============================================================================
