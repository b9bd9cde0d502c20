--------------------------- MODULE BuscliqueJudge ---------------------------
(* Clique and biclique embeddings that busclique returns for a graph, judged   *)
(* one by one (they are minor embeddings of what was asked for) and among each *)
(* other (as answers from one cache).                                          *)
EXTENDS Graphs, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Chain(p) == ToSet(p[2])
MaxLen(e) == IF e = <<>> THEN 0 ELSE MaxOf({ Len(e[k][2]) : k \in DOMAIN e })

\* the chains are nonempty, without repetitions, of the graph, connected and disjoint
ChainFaults(adj, e) ==
    LET all == UNION { Chain(e[k]) : k \in DOMAIN e } IN
         (IF \E k \in DOMAIN e : e[k][2] = <<>> THEN {"empty"} ELSE {})
    \cup (IF 0 \in all THEN {"stray"} ELSE {})
    \cup (IF Sum([k \in DOMAIN e |-> Len(e[k][2])]) # Cardinality(all) THEN {"overlap"} ELSE {})
    \cup (IF 0 \notin all /\ \E k \in DOMAIN e : ~Connected(adj, Chain(e[k])) THEN {"broken"} ELSE {})

Keys(e) == { e[k][1] : k \in DOMAIN e }

\* an answer to x: nothing, or an embedding of the complete (bipartite) graph on the labels
\* 1..nl (and nl+1..nl+nr)
AskFaults(adj, x) ==
    LET e == x.emb
        bip == x.op \in {"biclique", "balanced"}
        joined(a, b) == IF bip THEN (a <= x.nl) # (b <= x.nl) ELSE a # b
        cf == ChainFaults(adj, e)
    IN  IF e = <<>> THEN {}
        ELSE cf
        \cup (IF Keys(e) # 1..(x.nl + x.nr) \/ Len(e) # x.nl + x.nr THEN {"labels"} ELSE {})
        \cup (IF cf = {} /\ \E k, l \in DOMAIN e : k < l /\ joined(e[k][1], e[l][1])
                              /\ ~Touch(adj, Chain(e[k]), Chain(e[l])) THEN {"edge"} ELSE {})

Asks(x, op) == { k \in DOMAIN x.asks : x.asks[k].op = op }

\* ------------------------------------------------------------ cliques, together
CliqueFaults(x) ==
    LET C == Asks(x, "clique")
        A(k) == x.asks[k]
        size(k) == Len(A(k).emb)
        longest(k) == MaxLen(A(k).emb)
        big == CHOOSE k \in Asks(x, "largest") : TRUE
        top == size(big)
        ok == { k \in C : A(k).a > 0 }
        best(ell) == LET f == { A(k).a : k \in { j \in ok : A(j).emb # <<>> /\ longest(j) <= ell } }
                     IN IF f = {} THEN 0 ELSE MaxOf(f)
    IN  \* every size up to the largest, and no more
             (IF \E k \in C : (A(k).emb # <<>>) # (A(k).a \in 1..top) THEN {"sizes"} ELSE {})
        \* a bigger clique has no shorter chains
        \cup (IF \E k, l \in ok : A(k).a < A(l).a /\ A(l).emb # <<>> /\ longest(k) > longest(l)
              THEN {"not-shortest"} ELSE {})
        \* the largest by chain length is the largest that any size offers
        \cup (IF \E k \in Asks(x, "bylength") : longest(k) > A(k).a THEN {"too-long"} ELSE {})
        \cup (IF \E k \in Asks(x, "bylength") : size(k) # best(A(k).a) THEN {"by-length"} ELSE {})
        \* the file gives what the object gives
        \cup (IF \E k \in Asks(x, "file"), l \in C : A(k).a = A(l).a /\
                   [j \in DOMAIN A(k).emb |-> Chain(A(k).emb[j])] # [j \in DOMAIN A(l).emb |-> Chain(A(l).emb[j])]
              THEN {"file"} ELSE {})
        \* without the cache there is as much, unless couplers are missing
        \cup (IF x.simple /\ \E k \in Asks(x, "direct"), l \in C : A(k).a = A(l).a /\
                   (A(k).emb = <<>>) # (A(l).emb = <<>>) THEN {"direct"} ELSE {})

\* ------------------------------------------------------------ bicliques, together
BicliqueFaults(x) ==
    LET B == { k \in Asks(x, "biclique") : x.asks[k].a > 0 /\ x.asks[k].b > 0 }
        Z == Asks(x, "biclique") \ B
        A(k) == x.asks[k]
        bal == A(CHOOSE k \in Asks(x, "balanced") : TRUE).a
        longest(k) == MaxLen(A(k).emb)
        within(k, l) == \/ (A(k).a <= A(l).a /\ A(k).b <= A(l).b)
                        \/ (A(k).a <= A(l).b /\ A(k).b <= A(l).a)
    IN       (IF \E k, l \in B : within(k, l) /\ A(l).emb # <<>> /\ A(k).emb = <<>> THEN {"sizes"} ELSE {})
        \cup (IF \E k, l \in B : within(k, l) /\ A(k).emb # <<>> /\ A(l).emb # <<>> /\ longest(k) > longest(l)
              THEN {"not-shortest"} ELSE {})
        \cup (IF \E k \in B : LET m == Min2(A(k).a, A(k).b) IN
                   \/ (A(k).a = A(k).b /\ (A(k).emb # <<>>) # (m <= bal))
                   \/ (A(k).emb # <<>> /\ m > bal) THEN {"balanced"} ELSE {})
        \* without edges there is room for as many as there are nodes
        \cup (IF \E k \in Z : (A(k).emb # <<>>) # (A(k).a + A(k).b \in 1..x.nodes) THEN {"independent"} ELSE {})

Faults(x) ==
    LET adj == Adj(x.tadj) IN
    UNION { AskFaults(adj, x.asks[k]) : k \in DOMAIN x.asks }
    \cup (CASE x.what = "clique" -> CliqueFaults(x)
            [] x.what = "biclique" -> BicliqueFaults(x)
            [] OTHER -> {})

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
