----------------------------- MODULE DriverTrace -----------------------------
(* Recorded runs of the heuristic against FindEmbedding: the events have to be  *)
(* a behaviour of the driver (passes that fail and improvements nobody reports  *)
(* are inferred: the set of possible driver states is tracked), and the chains  *)
(* that come back have to be the ones the driver claims to have.                *)
EXTENDS FindEmbedding, MinorEmbedding, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Par(x) == [tries |-> x.tries, mni |-> x.mni, inner |-> x.inner, cp |-> x.cp, skip |-> x.skip,
           interactive |-> x.interactive, slack |-> 100000]
\* the slack of a run is not bounded
Reset(s) == [s EXCEPT !.slack = 100000]

RECURSIVE Run(_, _, _)
Run(S, evs, k) ==
    IF k > Len(evs) \/ S = {} THEN S
    ELSE Run(TLCEval({ Reset(t) : t \in UNION { Succ(s, evs[k]) : s \in S } }), evs, k + 1)

Emb(x) == [v \in 1..Len(x.emb) |-> x.emb[v]]

FillCount(chains, f) == Cardinality({ q \in Used(chains) : Fill(chains, q) = f })
QualityIs(x, s) ==
    IF s.emb = 1 THEN MaxChain(Emb(x)) = s.size /\ CountLen(Emb(x), s.size) = s.cnt
    ELSE LET ch == ChainNodes(Emb(x)) IN MaxFill(ch) = s.size /\ FillCount(ch, s.size) = s.cnt

Faults(x) ==
    LET F == Run({Start(Par(x))}, x.events, 1)
        adj == Adj(x.tadj)
        emb == Emb(x)
        init == [v \in 1..Len(x.init) |-> x.init[v]]
        good == IsEmbedding(init, x.ns, x.sedges, adj)
        done == { s \in F : s.pc = "done" }
    IN   (IF { s \in F : s.pc \in {"done", "failed"} } = {} THEN {"protocol"} ELSE {})
    \cup (IF x.exc = 0 /\ x.ret = 1 /\ EmbeddingFaults(emb, x.ns, x.sedges, adj) # {}
          THEN {"result"} ELSE {})
    \cup (IF x.exc = 0 /\ x.ret = 0 /\ x.overlap /\ SemiFaults(emb, x.ns, x.sedges, adj) # {}
          THEN {"semi-result"} ELSE {})
    \cup (IF (x.exc # 0 \/ (x.ret = 0 /\ ~x.overlap)) /\ Len(x.emb) # 0 THEN {"leftover"} ELSE {})
    \cup (IF Len(x.emb) = x.ns /\ done # {} /\ ~(\E s \in done : QualityIs(x, s))
          THEN {"best"} ELSE {})
    \cup (IF good /\ x.exc = 0 /\ x.ret = 0 THEN {"lost"} ELSE {})
    \cup (IF good /\ x.exc # 0 /\ x.exc # 2 THEN {"lost"} ELSE {})
    \cup (IF good /\ x.exc = 0 /\ x.ret = 1 /\ Len(x.emb) = x.ns /\ Worse(emb, init)
          THEN {"worse"} ELSE {})
    \cup (IF x.quiet # x.levels THEN {"verbosity"} ELSE {})

Complain(n, S) == \A f \in S : PrintT(<<"REJECT", n, f>>)
TraceInit == i = 0
TraceNext == /\ i < Len(Rows)
             /\ i' = i + 1
             /\ Complain(i', Faults(Rows[i']))
             /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
