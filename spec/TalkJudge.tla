------------------------------ MODULE TalkJudge ------------------------------
(* What a caller heard and got from recorded searches against Talk.             *)
EXTENDS Talk, MinorEmbedding, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Par(x) == [tries |-> x.tries, mni |-> x.mni, inner |-> x.inner, cp |-> x.cp, skip |-> x.skip,
           interactive |-> x.interactive, slack |-> 100000]
Reset(s) == [s EXCEPT !.slack = 100000]

RECURSIVE Run(_, _, _, _, _)
Run(S, evs, may, pending, k) ==
    IF k > Len(evs) \/ S = {} THEN S
    ELSE Run(TLCEval({ Reset(t) : t \in UNION { Hear(s, evs[k], may, pending) : s \in S } }),
             evs, may, pending \/ evs[k][1] = "kill", k + 1)

Emb(x) == [v \in 1..Len(x.emb) |-> x.emb[v]]
FillCount(chains, f) == Cardinality({ q \in Used(chains) : Fill(chains, q) = f })
QualityIs(x, s) ==
    IF s.emb = 1 THEN MaxChain(Emb(x)) = s.size /\ CountLen(Emb(x), s.size) = s.cnt
    ELSE LET ch == ChainNodes(Emb(x)) IN MaxFill(ch) = s.size /\ FillCount(ch, s.size) = s.cnt

Signals(x) == { k \in 1..Len(x.events) : x.events[k][1] = "signal" }
\* with less than everything shown: the outcome, and that a signal ends it
Outcome(x) ==
    /\ x.exc \in {0, 1, 2}
    /\ x.exc = 2 => (Signals(x) # {} /\ x.interactive = 0)
    /\ Signals(x) # {} => x.exc = (IF x.interactive = 1 THEN 0 ELSE 2)
    /\ \A k \in Signals(x), j \in 1..Len(x.events) :
          j > k => x.events[j][1] \in {"stop", "found", "fill", "chain", "minor", "end", "exc"}
    /\ x.exc = 0 => (x.ret = 1 <=> \E k \in 1..Len(x.events) : x.events[k][1] = "found")

Faults(x) ==
    LET may == { x.may[k] : k \in 1..Len(x.may) }
        F == Run({Start(Par(x))}, x.events, may, FALSE, 1)
        done == { s \in F : s.pc = "done" }
        adj == Adj(x.tadj)
    IN   (IF x.v = 3 /\ { s \in F : s.pc \in {"done", "failed"} } = {} THEN {"protocol"} ELSE {})
    \cup (IF x.v = 3 \/ Outcome(x) THEN {} ELSE {"outcome"})
    \cup (IF x.wrong # 0 THEN {"channel"} ELSE {})
    \cup (IF x.exc = 0 /\ x.ret = 1 /\ EmbeddingFaults(Emb(x), x.ns, x.sedges, adj) # {}
          THEN {"result"} ELSE {})
    \cup (IF x.exc = 0 /\ x.ret = 0 /\ x.overlap = 1 /\ SemiFaults(Emb(x), x.ns, x.sedges, adj) # {}
          THEN {"semi-result"} ELSE {})
    \cup (IF x.exc = 0 /\ x.ret = 0 /\ x.overlap = 0 /\ Len(x.emb) # 0 THEN {"leftover"} ELSE {})
    \cup (IF Len(x.emb) = x.ns /\ done # {} /\ ~(\E s \in done : QualityIs(x, s))
          THEN {"best"} ELSE {})
    \cup UNION { LET r == x.runs[k] IN
              (IF r.events # Filter(x.events, r.v) THEN {"verbosity"} ELSE {})
         \cup (IF r.wrong # 0 THEN {"channel"} ELSE {})
         \cup (IF r.same # 1 THEN {"answer"} ELSE {}) : k \in 1..Len(x.runs) }

Complain(n, S) == \A f \in S : PrintT(<<"REJECT", n, f>>)
Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ Complain(i', Faults(Rows[i']))
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
