----------------------------- MODULE SearchJudge -----------------------------
(* What the search does between two chains it lays.  A shot is taken whenever  *)
(* the distances for a torn out variable u have been computed: the embedding,  *)
(* and the search's tables.                                                    *)
(*                                                                             *)
(* - the embedding is sound (ChainOps), u is torn out, its weights are right   *)
(* - the tables are shortest paths, by certificate: a distance is that of the  *)
(*   parent plus the weight, and no neighbour offers less; nothing beyond the  *)
(*   fill bound or outside of the domains is entered                           *)
(* - the total of a node adds up the distances from all neighbours' chains, or *)
(*   is infinite where u must not be rooted                                    *)
EXTENDS ChainOps, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

FromPairs(s) == TLCEval([k \in { s[j][1] : j \in DOMAIN s } |-> s[CHOOSE j \in DOMAIN s : s[j][1] = k][2]])
ChainOf(x) == [data |-> TLCEval([q \in { x.data[j][1] : j \in DOMAIN x.data } |->
                  LET r == x.data[CHOOSE j \in DOMAIN x.data : x.data[j][1] = q] IN <<r[2], r[3]>>]),
               links |-> FromPairs(x.links)]
EmbOf(s) == TLCEval([v \in 1..Len(s) |-> ChainOf(s[v])])
Ctx(x) == [nbrs |-> x.nbrs, tadj |-> Adj(x.tadj), dom |-> TLCEval([v \in 1..x.nv |-> ToSet(x.dom[v])]),
           fixed |-> ToSet(x.fixed), reserved |-> ToSet(x.reserved), nq |-> x.nq]
Free(ctx) == 1..(ctx.nq - Cardinality(ctx.reserved))

Inf == -1
Fin(d) == d # Inf

\* ------------------------------------------------------------ tables
TableFaults(ctx, E, s) ==
    LET Full(q) == s.weights[q] >= s.bound
        \* what the path between u and v may use
        Way(v) == { q \in Free(ctx) : q \in ctx.dom[s.u] \cup ctx.dom[v] }
        Src(v) == Q(E[v])
        per(k) ==
            LET v == s.seen[k]  d == s.d[k]  par == s.par[k]
                fixed == v \in ctx.fixed
                inner == { q \in Free(ctx) : Fin(d[q]) /\ q \notin Src(v) }
                reach == inner \cup Src(v)
                dist(q) == IF q \in Src(v) THEN 0 ELSE d[q]
            IN   (IF ~fixed /\ \E q \in Src(v) \cap Free(ctx) : Fin(d[q]) /\ d[q] # 0 THEN {"source"} ELSE {})
            \cup (IF \E q \in inner : q \notin Way(v) \/ Full(q) THEN {"entered"} ELSE {})
            \cup (IF \E q \in inner : ~(par[q] \in reach /\ AdjS(ctx, q, par[q])
                                        /\ d[q] = dist(par[q]) + s.w[q]) THEN {"parent"} ELSE {})
            \cup (IF \E q \in inner : \E p \in reach : q \in ctx.tadj[p] /\ d[q] > dist(p) + s.w[q]
                  THEN {"not-shortest"} ELSE {})
            \cup (IF \E q \in (Way(v) \ Src(v)) : ~Full(q) /\ ~Fin(d[q])
                        /\ \E p \in reach : q \in ctx.tadj[p] THEN {"not-reached"} ELSE {})
    IN  UNION { per(k) : k \in DOMAIN s.seen }

\* equal fill, equal weight; more fill, no less; at least 1
WeightFaults(ctx, s) ==
    IF \E p, q \in Free(ctx) : Fin(s.w[p]) /\ Fin(s.w[q]) /\
          (s.weights[p] <= s.weights[q] /\ s.w[p] > s.w[q]) THEN {"weight-order"}
    ELSE IF \E p \in Free(ctx) : Fin(s.w[p]) /\ s.w[p] < 1 THEN {"weight-low"} ELSE {}

RECURSIVE Total(_, _, _, _)
Total(E, s, q, k) ==
    IF k > Len(s.seen) THEN 0
    ELSE (IF q \in Q(E[s.seen[k]]) THEN s.w[q] ELSE s.d[k][q]) + Total(E, s, q, k + 1)

TotalFaults(ctx, E, s, par) ==
    LET ok(q) == /\ q \in ctx.dom[s.u] /\ s.weights[q] < s.bound
                 /\ \A k \in DOMAIN s.seen : Fin(s.d[k][q])
        want(q) == IF ~ok(q) THEN Inf
                   ELSE IF s.seen = <<>> THEN s.w[q] ELSE Total(E, s, q, 1)
        \* the parallel search does not weigh the first root: any node that has room will do
        free(q) == s.seen = <<>> /\ par /\ ok(q) /\ s.total[q] = 0
    IN  IF \E q \in Free(ctx) : s.total[q] # want(q) /\ ~free(q) THEN {"total"} ELSE {}

ShotFaults(ctx0, s, par) ==
    LET ctx == [ctx0 EXCEPT !.nbrs[s.u] = s.order]
        E == EmbOf(s.emb)
        st == StateFaults(ctx, E)
    IN   st
    \cup (IF E[s.u] # Blank \/ \E v \in DOMAIN E : LinkOf(E[v], s.u) # 0 THEN {"torn"} ELSE {})
    \cup (IF \E q \in 1..ctx.nq : s.weights[q] # Fills(ctx, E, q) THEN {"weights"} ELSE {})
    \cup (IF ToSet(s.seen) # { v \in ToSet(s.order) : Size(E[v]) > 0 } THEN {"neighbours"} ELSE {})
    \cup (IF s.fits THEN TableFaults(ctx, E, s) \cup TotalFaults(ctx, E, s, par) \cup WeightFaults(ctx, s) ELSE {})

RECURSIVE Walk(_, _, _, _)
Walk(ctx, shots, k, par) ==
    IF k > Len(shots) THEN {}
    ELSE ShotFaults(ctx, shots[k], par) \cup Walk(ctx, shots, k + 1, par)

Faults(x) == Walk(Ctx(x), x.shots, 1, x.parallel)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
