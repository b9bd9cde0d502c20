--------------------------- MODULE MinorEmbedding ---------------------------
(* What it means to be a minor embedding, and every way in which a map from    *)
(* source nodes to chains can fail to be one.  A source graph is given by its  *)
(* number of nodes ns and a sequence of pairs sedges, a target by adjacency;   *)
(* an embedding is a function from 1..ns to sequences of target nodes.         *)
EXTENDS Graphs

\* ------------------------------------------------------------- per chain
ChainNodes(emb) == TLCEval([v \in DOMAIN emb |-> ToSet(emb[v])])

EmptyChain(C) == C = {}
StrayChain(C, adj) == \E q \in C : q \notin Nodes(adj)
BrokenChain(C, adj) == ~StrayChain(C, adj) /\ ~Connected(adj, C)

\* ------------------------------------------------------------- the whole map
Used(chains) == UNION { chains[v] : v \in DOMAIN chains }

RECURSIVE SizeSum(_, _)
SizeSum(chains, D) ==
    IF D = {} THEN 0
    ELSE LET v == CHOOSE x \in D : TRUE
         IN  Cardinality(chains[v]) + SizeSum(chains, D \ {v})

Disjoint(chains) ==
    LET sizes == [v \in DOMAIN chains |-> Cardinality(chains[v])]
    IN  (IF Len(sizes) = 0 THEN 0 ELSE Sum(sizes)) = Cardinality(Used(chains))

\* number of chains through target node q
Fill(chains, q) == Cardinality({ v \in DOMAIN chains : q \in chains[v] })
MaxFill(chains) ==
    IF Used(chains) = {} THEN 0 ELSE MaxOf({ Fill(chains, q) : q \in Used(chains) })

MissingEdges(chains, sedges, adj) ==
    { i \in DOMAIN sedges :
        LET u == sedges[i][1]  v == sedges[i][2] IN
        /\ u # v
        /\ ~Touch(adj, chains[u], chains[v]) }

\* Chains may share target nodes, but each is a connected nonempty set of target nodes
\* and each source edge is represented: an edge of the target joins the chains.
\* `Shared edges': in an overlapped embedding a chain may also meet its neighbour.
SemiEdge(chains, adj, u, v) ==
    Touch(adj, chains[u], chains[v]) \/ chains[u] \cap chains[v] # {}

EmbeddingFaults(emb, ns, sedges, adj) ==
    LET chains == ChainNodes(emb)
        stray == \E v \in DOMAIN emb : StrayChain(chains[v], adj)
    IN  IF DOMAIN emb # 1..ns THEN {"domain"}
        ELSE IF stray THEN {"stray"}
        ELSE   (IF \E v \in 1..ns : EmptyChain(chains[v]) THEN {"empty"} ELSE {})
          \cup (IF \E v \in 1..ns : Len(emb[v]) # Cardinality(chains[v]) THEN {"repeat"} ELSE {})
          \cup (IF \E v \in 1..ns : BrokenChain(chains[v], adj) THEN {"broken"} ELSE {})
          \cup (IF ~Disjoint(chains) THEN {"overlap"} ELSE {})
          \cup (IF MissingEdges(chains, sedges, adj) # {} THEN {"edge"} ELSE {})

IsEmbedding(emb, ns, sedges, adj) == EmbeddingFaults(emb, ns, sedges, adj) = {}

\* an embedding up to overlap
SemiFaults(emb, ns, sedges, adj) ==
    LET chains == ChainNodes(emb)
        stray == \E v \in DOMAIN emb : StrayChain(chains[v], adj)
    IN  IF DOMAIN emb # 1..ns THEN {"domain"}
        ELSE IF stray THEN {"stray"}
        ELSE   (IF \E v \in 1..ns : EmptyChain(chains[v]) THEN {"empty"} ELSE {})
          \cup (IF \E v \in 1..ns : Len(emb[v]) # Cardinality(chains[v]) THEN {"repeat"} ELSE {})
          \cup (IF \E v \in 1..ns : BrokenChain(chains[v], adj) THEN {"broken"} ELSE {})
          \cup (IF \E i \in DOMAIN sedges :
                      /\ sedges[i][1] # sedges[i][2]
                      /\ ~SemiEdge(chains, adj, sedges[i][1], sedges[i][2])
                THEN {"edge"} ELSE {})

\* ------------------------------------------------------------- quality
\* The quality of an embedding: how many chains have each length, longest first
\* (shorter longest chain is better, then fewer longest chains, and so on).
MaxChain(emb) == IF DOMAIN emb = {} THEN 0 ELSE MaxOf({ Len(emb[v]) : v \in DOMAIN emb })
CountLen(emb, k) == Cardinality({ v \in DOMAIN emb : Len(emb[v]) = k })

RECURSIVE WorseFrom(_, _, _)
WorseFrom(a, b, k) ==
    IF k = 0 THEN FALSE
    ELSE IF CountLen(a, k) # CountLen(b, k) THEN CountLen(a, k) > CountLen(b, k)
    ELSE WorseFrom(a, b, k - 1)
\* embedding a is strictly worse than embedding b
Worse(a, b) == WorseFrom(a, b, Max2(MaxChain(a), MaxChain(b)))
=============================================================================
