---------------------------- MODULE Constraints ----------------------------
(* The two reductions by which constraints are implemented, checked on every    *)
(* problem over a target with N nodes and a source with M nodes:                *)
(*  - suspension: an auxiliary node in both graphs, fixed, joined in the source *)
(*    to the suspended node and in the target to the nodes of the blob;         *)
(*  - fixing: the fixed chains leave the target, and what is left of the chains *)
(*    has to touch them where the source asks for it.                           *)
(* The states are problems with a candidate map; the invariants say that the    *)
(* reduced problem accepts exactly the maps that the contract accepts.          *)
EXTENDS FindEmbeddingApi

CONSTANTS N, M
VARIABLES tedges, sedges, emb, blob, fixv

SeqsOf(S) == LET f[T \in SUBSET S] ==
                   IF T = {} THEN <<>>
                   ELSE LET x == CHOOSE y \in T : \A z \in T : y <= z IN <<x>> \o f[T \ {x}]
             IN f[S]
TPairs == { p \in (1..N) \X (1..N) : p[1] < p[2] }
SPairs == { p \in (1..M) \X (1..M) : p[1] < p[2] }
RECURSIVE PairSeq(_)
PairSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o PairSeq(S \ {x})

vars == <<tedges, sedges, emb, blob, fixv>>
Init == /\ tedges \in SUBSET TPairs
        /\ sedges \in SUBSET SPairs
        /\ emb = [v \in 1..M |-> <<>>]
        /\ blob = {} /\ fixv = 0
\* build a candidate chain by chain, then the constraint
SetChain == \E v \in 1..M : /\ emb[v] = <<>> /\ \A u \in 1..(v-1) : emb[u] # <<>>
                            /\ \E C \in SUBSET (1..N) \ {{}} : emb' = [emb EXCEPT ![v] = SeqsOf(C)]
                            /\ UNCHANGED <<tedges, sedges, blob, fixv>>
Full == \A v \in 1..M : emb[v] # <<>>
Choose == /\ Full /\ blob = {} /\ fixv = 0
          /\ \E B \in SUBSET (1..N) \ {{}} : blob' = B
          /\ \E v \in 1..M : fixv' = v
          /\ UNCHANGED <<tedges, sedges, emb>>
Next == SetChain \/ Choose
Spec == Init /\ [][Next]_vars

adj == AdjOfEdges(N, tedges)
SE == PairSeq(sedges)

\* ----- suspension of node 1 by `blob': pin is source node M+1 and target node N+1
Pinned == IsEmbedding([v \in 1..(M+1) |-> IF v = M + 1 THEN <<N + 1>> ELSE emb[v]], M + 1,
                      Append(SE, <<1, M + 1>>),
                      AdjOfEdges(N + 1, tedges \cup { <<q, N + 1>> : q \in blob }))
Call == [ns |-> M, sedges |-> SE, tadj |-> adj, overlap |-> FALSE,
         fixed |-> [v \in {} |-> {}], restr |-> [v \in {} |-> {}],
         blobs |-> {<<1, blob>>}, maxfill |-> 0, init |-> <<>>]
Suspension == blob # {} =>
    (Pinned <=> IsEmbedding(emb, M, SE, adj) /\ BlobFaults(Call, emb) = {})

\* ----- fixing the chain of fixv at the value it has in emb
F == ToSet(emb[fixv])
Rest == { v \in 1..M : v # fixv }
restAdj == [q \in 1..N |-> IF q \in F THEN {} ELSE adj[q] \ F]
\* the reduced problem: the others embed into the rest, and touch F where they have to
Reduced == /\ \A v \in Rest : /\ ToSet(emb[v]) \subseteq (1..N) \ F
                              /\ Connected(restAdj, ToSet(emb[v]))
           /\ \A u, v \in Rest : u # v => ToSet(emb[u]) \cap ToSet(emb[v]) = {}
           /\ \A i \in DOMAIN SE :
                LET a == SE[i][1]  b == SE[i][2] IN
                IF a # fixv /\ b # fixv THEN Touch(restAdj, ToSet(emb[a]), ToSet(emb[b]))
                ELSE Touch(adj, ToSet(emb[a]), ToSet(emb[b]))
FixCall == [Call EXCEPT !.fixed = [v \in {fixv} |-> F], !.blobs = {}]
Fixing == fixv # 0 =>
    ((FixedSound(FixCall) /\ Reduced)
      <=> (IsEmbedding(emb, M, SE, adj) /\ FixedFaults(FixCall, emb) = {}))

\* the contract accepts an embedding, and nothing that is no embedding
Reply == [ret |-> "dict", flag |-> -1, bug |-> FALSE, emb |-> [v \in 1..M |-> <<v, emb[v]>>]]
Contract == Full => (ReplyFaults([Call EXCEPT !.blobs = {}], Reply) = {}
                       <=> IsEmbedding(emb, M, SE, adj))
=============================================================================
