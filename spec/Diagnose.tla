------------------------------ MODULE Diagnose ------------------------------
(* What diagnose_embedding has to list: the faults of a map from source nodes  *)
(* 1..ns to sequences of nodes, with respect to a source graph (ns, sedges)    *)
(* and a target adj.  A chain may name nodes that the target does not have     *)
(* (they are not in Nodes(adj)), source nodes may have no chain, and keys      *)
(* other than source nodes are of no interest.                                 *)
EXTENDS MinorEmbedding

Fault(k, a, b, c) == [kind |-> k, a |-> a, b |-> b, c |-> c]

\* the sources nodes with a nonempty chain, and those whose chain lies in the target
Present(emb, ns) == { v \in 1..ns : v \in DOMAIN emb /\ emb[v] # <<>> }
Inside(emb, ns, adj) == { v \in Present(emb, ns) : ToSet(emb[v]) \subseteq Nodes(adj) }
\* the source nodes whose chains have the target node q
Holders(emb, ns, q) == { v \in Present(emb, ns) : q \in ToSet(emb[v]) }

\* joined by an edge of the target from the one chain to the other
Joined(emb, adj, u, v) == \E p \in ToSet(emb[u]) : \E q \in ToSet(emb[v]) : q \in adj[p]

\* Overlaps are one fault for every shared node and pair of its holders; a report need
\* not name all pairs.
Faults(emb, ns, sedges, adj) ==
    LET P == Present(emb, ns)
        I == Inside(emb, ns, adj)
        T == UNION { ToSet(emb[v]) : v \in P }
    IN       { Fault("missing", v, 0, 0) : v \in (1..ns) \ P }
        \cup UNION { { Fault("node", v, q, 0) : q \in ToSet(emb[v]) \ Nodes(adj) } : v \in P }
        \cup { Fault("broken", v, 0, 0) : v \in { u \in I : ~Connected(adj, ToSet(emb[u])) } }
        \cup UNION { { Fault("overlap", q, u, v) : u \in Holders(emb, ns, q), v \in Holders(emb, ns, q) } \
                     { Fault("overlap", q, u, u) : u \in Holders(emb, ns, q) } : q \in T \cap Nodes(adj) }
        \cup { Fault("edge", sedges[k][1], sedges[k][2], 0) : k \in
                 { l \in DOMAIN sedges : LET u == sedges[l][1]  v == sedges[l][2] IN
                     u # v /\ {u, v} \subseteq I /\ ~Joined(emb, adj, u, v) } }

Flip(f) == [f EXCEPT !.a = f.b, !.b = f.a]
True(f, faults) == f \in faults \/ (f.kind = "edge" /\ Flip(f) \in faults)

\* what is wrong with a list of errors, given the faults
Reports(errs, faults) ==
         (IF \E f \in errs : ~True(f, faults) THEN {"false"} ELSE {})
    \cup (IF \E f \in faults : f.kind # "overlap" /\ f \notin errs /\ ~(f.kind = "edge" /\ Flip(f) \in errs)
          THEN {"silent"} ELSE {})
    \* every holder of a shared node is named with it
    \cup (IF \E f \in faults : f.kind = "overlap" /\ ~\E e \in errs :
                e.kind = "overlap" /\ e.a = f.a /\ f.b \in {e.b, e.c} THEN {"overlap"} ELSE {})
=============================================================================
