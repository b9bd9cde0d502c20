------------------------------ MODULE Quickpass ------------------------------
(* What one pass of miner.quickpass may do to the chains a miner holds: a       *)
(* relation between the chains before (a function from 1..ns to sets of target  *)
(* nodes, {} where there is none) and those after.  QuickpassMC derives the     *)
(* clauses from the steps a pass is made of.                                    *)
(*                                                                              *)
(* call: FindEmbeddingApi's, order: sequence of the variables to be replaced,   *)
(* len: chainlength_bound, over: overlap_bound                                  *)
EXTENDS FindEmbeddingApi

Vars(c) == 1..c.ns
Loose(c) == Vars(c) \ DOMAIN c.fixed
Reserved(c) == UNION { c.fixed[v] : v \in DOMAIN c.fixed }
Hit(c, order) == ({ order[i] : i \in DOMAIN order } \cap Vars(c)) \ DOMAIN c.fixed
FillOf(c, ch, q) == Cardinality({ v \in Loose(c) : q \in ch[v] })
Others(c, v) == NbrsOf(c, v) \ {v}

Linked(c, ch, u, v) == SemiEdge(ch, c.tadj, u, v)

\* what initial_chains amount to: fixed nodes and foreign domains are left out
Start(c, initial) ==
    TLCEval([v \in Vars(c) |->
       IF v \in DOMAIN c.fixed THEN c.fixed[v]
       ELSE IF v \in DOMAIN initial THEN (initial[v] \ Reserved(c)) \cap Domain(c, v)
       ELSE {}])

\* the search takes place in the largest component of the target
Main(c) == LET all == Nodes(c.tadj)
               K == { ComponentOf(c.tadj, all, q) : q \in all }
           IN  CHOOSE A \in K : \A B \in K : Cardinality(B) <= Cardinality(A)

\* A pass gives up on a variable only where there is no room: no connected set of nodes
\* that may still be used reaches the chains of all of its neighbours.
Room(c, ch, u, over) ==
    LET ok == { q \in Main(c) \ Reserved(c) : FillOf(c, ch, q) <= over }
        N == { v \in Others(c, u) : ch[v] # {} }
        meets(K, v) == (K \cap ch[v] # {}) \/ (\E q \in K : c.tadj[q] \cap ch[v] # {})
    IN  \E q \in ok : LET K == ComponentOf(c.tadj, ok, q) IN \A v \in N : meets(K, v)

QpFaults(c, before, order, len, over, ch) ==
    LET hit == Hit(c, order)
        nb(v) == Others(c, v)
        now(v) == ch[v] # {}
    IN   (IF \E v \in DOMAIN c.fixed : ch[v] # c.fixed[v] THEN {"qp-fixed"} ELSE {})
    \cup (IF \E v \in Loose(c) : ch[v] \cap Reserved(c) # {} THEN {"qp-reserved"} ELSE {})
    \cup (IF \E v \in hit : c.restr # <<>> /\ now(v) /\
             ~(ch[v] \subseteq Domain(c, v) \cup UNION { Domain(c, u) : u \in nb(v) })
          THEN {"qp-domain"} ELSE {})
    \cup (IF len > 0 /\ \/ \E v \in hit : Cardinality(ch[v]) > len
                        \/ \E v \in Loose(c) \ hit :
                              Cardinality(ch[v]) > Max2(len, Cardinality(before[v]))
          THEN {"qp-length"} ELSE {})
    \cup (IF \E q \in UNION { ch[v] : v \in Loose(c) } :
             FillOf(c, ch, q) > Max2(1 + over, FillOf(c, before, q))
          THEN {"qp-overlap"} ELSE {})
    \cup (IF \E v \in Loose(c) : now(v) /\ ~Connected(c.tadj, ch[v])
             /\ (v \in hit \/ Connected(c.tadj, before[v])) THEN {"qp-broken"} ELSE {})
    \cup (IF \E v \in Loose(c) : \E u \in nb(v) :
             /\ now(u) /\ now(v) /\ ~Linked(c, ch, u, v)
             /\ \/ u \in hit
                \/ v \in hit
                \/ (before[u] # {} /\ before[v] # {} /\ Linked(c, before, u, v))
          THEN {"qp-edge"} ELSE {})
    \cup (IF \E b \in c.blobs : b[2] # {} /\ b[1] \in hit /\ now(b[1]) /\ ch[b[1]] \cap b[2] = {}
          THEN {"qp-suspend"} ELSE {})
    \cup (IF \E v \in Loose(c) \ hit : nb(v) \cap hit = {} /\ ch[v] # before[v]
          THEN {"qp-frame"} ELSE {})
    \cup (IF Len(order) > 0 /\ len = 0 /\ c.restr = <<>> /\ c.blobs = {}
          THEN LET u == order[Len(order)] IN
               IF u \in Loose(c) /\ ~now(u) /\ Room(c, ch, u, over) THEN {"qp-gaveup"} ELSE {}
          ELSE {})
=============================================================================
