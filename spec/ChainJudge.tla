----------------------------- MODULE ChainJudge -----------------------------
(* Recorded histories of operations on the chains of an embedding: the state   *)
(* after each operation is the one ChainOps gives for the state before.        *)
EXTENDS ChainOps, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

FromPairs(s) == TLCEval([k \in { s[j][1] : j \in DOMAIN s } |-> s[CHOOSE j \in DOMAIN s : s[j][1] = k][2]])
ChainOf(x) == [data |-> TLCEval([q \in { x.data[j][1] : j \in DOMAIN x.data } |->
                  LET r == x.data[CHOOSE j \in DOMAIN x.data : x.data[j][1] = q] IN <<r[2], r[3]>>]),
               links |-> FromPairs(x.links)]
EmbOf(s) == TLCEval([v \in 1..Len(s) |-> ChainOf(s[v])])

Ctx(x) == [nbrs |-> x.nbrs, tadj |-> Adj(x.tadj), dom |-> TLCEval([v \in 1..x.nv |-> ToSet(x.dom[v])]),
           fixed |-> ToSet(x.fixed), reserved |-> ToSet(x.reserved), nq |-> x.nq]

\* ------------------------------------------------------------ how it starts
\* fixed chains are there, initial chains are there as far as they are allowed
Allowed(ctx, x, v) ==
    IF v \in ctx.fixed THEN FromPairs(x.fixchains)[v]
    ELSE IF v \in DOMAIN FromPairs(x.initial) THEN FromPairs(x.initial)[v] ELSE <<>>
StartFaults(ctx, x, E) ==
    LET want(v) == IF v \in ctx.fixed THEN ToSet(Allowed(ctx, x, v))
                   ELSE (ToSet(Allowed(ctx, x, v)) \cap ctx.dom[v]) \ ctx.reserved
        adj(u, v) == (Q(E[u]) \cap Q(E[v]) # {}) \/ (\E p \in Q(E[u]) : \E q \in Q(E[v]) : AdjS(ctx, p, q))
    IN   (IF \E v \in DOMAIN E : Q(E[v]) # want(v) THEN {"start-chain"} ELSE {})
    \cup (IF \E u \in DOMAIN E \ ctx.fixed : \E v \in ToSet(ctx.nbrs[u]) :
               (LinkOf(E[u], v) # 0) # adj(u, v) THEN {"start-link"} ELSE {})
    \cup (IF \E u \in DOMAIN E \ ctx.fixed : Size(E[u]) > 0 /\
               (LinkOf(E[u], u) # 0) # Connected([q \in 1..ctx.nq |-> { p \in 1..ctx.nq : AdjS(ctx, p, q) }], Q(E[u]))
          THEN {"start-root"} ELSE {})

\* ------------------------------------------------------------ the steps
Dists(x) == x.dist
Results(ctx, E, fr, x) ==
    CASE x.op = "construct" -> {Construct(ctx, E, x.u, x.q, x.parents)}
      [] x.op = "steiner" -> Steiner(ctx, E, x.u, x.q, x.parents, x.dist)
      [] x.op = "steal" -> {StealAll(ctx, E, x.u)}
      [] x.op = "flip" -> {FlipBack(ctx, E, x.u, x.t)}
      [] x.op = "tear" -> {TearOut(ctx, E, x.u)}
      [] x.op = "freeze" -> {FreezeOut(E, x.u)}
      [] x.op = "thaw" -> {ThawBack(E, x.u, fr)}

Loose(ctx, E) == DOMAIN E \ ctx.fixed
\* statistics: 1 and the histogram of the chain lengths without overlaps, otherwise 0 and
\* the histogram of the nodes in two chains, three chains, ...
Stats(ctx, E) ==
    LET free == 1..(ctx.nq - Cardinality(ctx.reserved))
        fill == TLCEval([q \in free |-> Fills(ctx, E, q)])
        top == IF free = {} THEN 0 ELSE MaxOf({ fill[q] : q \in free })
        size == TLCEval([v \in Loose(ctx, E) |-> Size(E[v])])
        longest == MaxOf({ size[v] : v \in Loose(ctx, E) })
    IN  IF top > 1 THEN [flag |-> 0, h |-> [k \in 1..(top - 1) |-> Cardinality({ q \in free : fill[q] = k + 1 })]]
        ELSE [flag |-> 1, h |-> [k \in 1..(longest + 1) |-> Cardinality({ v \in Loose(ctx, E) : size[v] = k - 1 })]]

OutFaults(ctx, E, before, x) ==
    IF x.op = "tear" /\ "weights" \notin DOMAIN x THEN {} ELSE
    LET s == Stats(ctx, E) IN
         (IF x.flag # s.flag \/ x.stats # s.h THEN {"statistics"} ELSE {})
    \cup (IF \E q \in 1..ctx.nq : x.weights[q] # Fills(ctx, E, q) THEN {"weights"} ELSE {})
    \cup (IF x.maxw # MaxOf({0} \cup { Fills(ctx, E, q) : q \in 1..(ctx.nq - Cardinality(ctx.reserved)) })
          THEN {"max-weight"} ELSE {})
    \cup (IF ToSet(x.linked) # { u \in Loose(ctx, E) : LinkedVar(ctx, E, u) }
             \/ x.all # (\A u \in Loose(ctx, E) : LinkedVar(ctx, E, u)) THEN {"linked"} ELSE {})
    \cup (IF x.op = "freeze" /\ x.size # Size(before[x.u]) THEN {"freeze-size"} ELSE {})

\* the neighbours of u in the order in which this step visited them
Seen(ctx, x) == [ctx EXCEPT !.nbrs[x.u] = x.order]

RECURSIVE Walk(_, _, _, _, _)
Walk(ctx0, E, fr, steps, k) ==
    IF k > Len(steps) THEN {}
    ELSE LET x == steps[k]
             ctx == Seen(ctx0, x)
             got == EmbOf(x.emb)
             f == (IF got \notin Results(ctx, E, fr, x) THEN {"step-" \o x.op} ELSE {})
                  \cup StateFaults(ctx, got) \cup OutFaults(ctx, got, E, x)
         IN  IF f # {} THEN f
             ELSE Walk(ctx, got, IF x.op = "freeze" THEN TLCEval(Frozen(E, x.u)) ELSE fr, steps, k + 1)

CopyFaults(ctx, x) ==
    LET last == IF x.steps = <<>> THEN EmbOf(x.start) ELSE EmbOf(x.steps[Len(x.steps)].emb)
        c == EmbOf(x.copy)
    IN  IF c # last \/ EmbOf(x.copy2) # c \/ \E q \in 1..ctx.nq : x.copyw[q] # Fills(ctx, c, q)
        THEN {"copy"} ELSE {}

Faults(x) ==
    LET ctx == Ctx(x)  E == EmbOf(x.start)
        s == StartFaults(ctx, x, E) \cup StateFaults(ctx, E)
    IN  IF s # {} THEN s ELSE Walk(ctx, E, <<>>, x.steps, 1) \cup CopyFaults(ctx, x)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
