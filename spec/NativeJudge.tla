---------------------------- MODULE NativeJudge ----------------------------
(* Sizes of the cliques and bicliques that busclique found on a graph, judged  *)
(* by what is native to it (module Native).                                    *)
EXTENDS Native, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Faults(x) ==
    LET L == x.lattice
        has == ToSet(x.nodes)
        coup == ToSet(x.edges)
        own == TLCEval(Owners(L))
        spans == Spans(L, own)
        tables == TLCEval({ Counts(L, own, has, coup, gone) : gone \in Covers(BadCrossings(L, own, has, coup)) })
        rects == TLCEval(IF x.bicliques = <<>> THEN {} ELSE UNION { Rectangles(L, c, spans) : c \in tables })
        promised(len) == MaxOf({ Promise(L, c, spans, len) : c \in tables })
    IN  \* with chains of up to so many qubits there is at least this clique
        (IF \E k \in DOMAIN x.cliques : x.cliques[k][2] < promised(x.cliques[k][1]) THEN {"clique"} ELSE {})
        \* a native biclique is found, with chains no longer than its own
        \cup (IF \E k \in DOMAIN x.bicliques :
                   LET q == x.bicliques[k]
                       o == Offers(rects, q[1], q[2])
                   IN  o # {} /\ q[3] = 0 THEN {"biclique"} ELSE {})
        \cup (IF \E k \in DOMAIN x.bicliques :
                   LET q == x.bicliques[k]
                       o == Offers(rects, q[1], q[2])
                   IN  o # {} /\ q[3] > MinOf(o) THEN {"biclique-length"} ELSE {})

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
