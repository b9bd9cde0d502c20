-------------------------------- MODULE Miner --------------------------------
(* The miner object: a problem, the chains its searches start from (`init'),   *)
(* the chains it holds (`best', unknown after a failed search that reports     *)
(* nothing), whether it has ever done a quickpass, and whether it remembers an  *)
(* order of the variables (0: no, 1: perhaps, 2: yes).  A history of calls of  *)
(* its methods is a behaviour of this machine if every call's reply is one the *)
(* machine can give in its state; the state after is determined by the reply.  *)
(*                                                                             *)
(* steps: [op |-> "quick", order, len, over, clear, ret, emb]                  *)
(*        [op |-> "find" / "many" / "improve", n, force, starts, reps]         *)
(*        [op |-> "init", chains]   [op |-> "key", emb, embedded, key]         *)
EXTENDS Quickpass

Pairs(s) == { s[i][1] : i \in DOMAIN s }
MapOf(s) == TLCEval([v \in Pairs(s) |-> ToSet(s[CHOOSE i \in DOMAIN s : s[i][1] = v][2])])
SeqMapOf(s) == TLCEval([v \in Pairs(s) |-> s[CHOOSE i \in DOMAIN s : s[i][1] = v][2]])

Start0(initial) == [init |-> initial, best |-> <<>>, known |-> FALSE, passed |-> FALSE, ordered |-> 0]

\* ------------------------------------------------------------ searches
\* a valid embedding to start from binds the reply (FindEmbeddingApi's init)
Ref(c, initial) ==
    IF /\ c.fixed = <<>> /\ c.restr = <<>> /\ c.blobs = {} /\ c.maxfill = 0
       /\ initial # <<>> /\ IsEmbedding(SeqMapOf(initial), c.ns, c.sedges, c.tadj)
    THEN SeqMapOf(initial) ELSE <<>>

SearchCall(c, initial) ==
    [c EXCEPT !.init = Ref(c, initial), !.free = c.free /\ initial = <<>>,
              !.maxfill = IF initial = <<>> THEN @ ELSE 0]

\* find_embeddings and improve_embeddings leave the flag out: it can be told from the chains
Bare(c, r) == IF r.ret # "bare" THEN r
              ELSE IF ~c.overlap THEN [r EXCEPT !.ret = "dict"]
              ELSE [r EXCEPT !.ret = "pair",
                      !.flag = IF Pairs(r.emb) = 1..c.ns /\ IsEmbedding(SeqMapOf(r.emb), c.ns, c.sedges, c.tadj)
                               THEN 1 ELSE 0]

SearchFaults(c, initial, r) ==
    LET r2 == Bare(c, r) IN
    IF r2.ret = "pair" /\ r.ret = "bare" /\ 0 \notin Pairs(r.emb)
    THEN ReplyFaults(SearchCall(c, initial), r2) \ {"lost", "flag-low"}
    ELSE ReplyFaults(SearchCall(c, initial), r2)

Full(c, s) == TLCEval([v \in Vars(c) |-> IF v \in Pairs(s) THEN MapOf(s)[v] ELSE {}])

Searched(c, m, r) ==     \* the state after a search
    IF r.ret \in {"dict", "pair", "bare"} /\ Pairs(r.emb) = 1..c.ns
    THEN [m EXCEPT !.best = Full(c, r.emb), !.known = TRUE, !.ordered = Max2(1, @)]
    ELSE [m EXCEPT !.known = FALSE, !.ordered = Max2(1, @)]

RECURSIVE ManyFaults(_, _, _, _), SearchedAll(_, _, _, _)
ManyFaults(c, starts, reps, i) ==
    IF i > Len(reps) THEN {}
    ELSE SearchFaults(c, starts[i], reps[i]) \cup ManyFaults(c, starts, reps, i + 1)
SearchedAll(c, m, reps, i) == IF i > Len(reps) THEN m ELSE SearchedAll(c, Searched(c, m, reps[i]), reps, i + 1)

Solved(c, r) == Pairs(r.emb) = 1..c.ns

\* ------------------------------------------------------------ quality
Over(c, e) == { q \in Nodes(c.tadj) : Cardinality({ v \in DOMAIN e : q \in e[v] }) > 1 }
Overlap(e, q) == Cardinality({ v \in DOMAIN e : q \in e[v] }) - 1
RECURSIVE Histogram(_, _)
\* <<value, how often, next smaller value, ...>> of a function on a set, zeros left out
Histogram(f, S) ==
    LET P == { x \in S : f[x] > 0 } IN
    IF P = {} THEN <<>>
    ELSE LET top == MaxOf({ f[x] : x \in P })
             H == { x \in P : f[x] = top }
         IN  <<top, Cardinality(H)>> \o Histogram(f, P \ H)

Quality(c, s, embedded) ==
    LET e == MapOf(s)
        L == Histogram([v \in DOMAIN e |-> Cardinality(e[v])], DOMAIN e)
        O == IF embedded THEN <<>> ELSE Histogram([q \in Nodes(c.tadj) |-> Overlap(e, q)], Over(c, e))
    IN  IF s = <<>> THEN [state |-> 2, over |-> <<>>, len |-> <<>>]
        ELSE [state |-> IF O = <<>> THEN 0 ELSE 1, over |-> O, len |-> L]

\* ------------------------------------------------------------ the machine
QuickFaults(c, m, x) ==
    LET before == IF x.clear \/ ~m.passed THEN Start(c, MapOf(m.init)) ELSE m.best
        e == Full(c, x.emb)
        shape == (IF 0 \in Pairs(x.emb) \/ ~(Pairs(x.emb) \subseteq 1..c.ns)
                     \/ Cardinality(Pairs(x.emb)) # Len(x.emb) THEN {"key"} ELSE {})
            \cup (IF \E i \in DOMAIN x.emb : x.emb[i][2] = <<>> THEN {"qp-empty"} ELSE {})
            \cup (IF \E i \in DOMAIN x.emb : ~(ToSet(x.emb[i][2]) \subseteq Nodes(c.tadj)) THEN {"stray"} ELSE {})
            \cup (IF \E i \in DOMAIN x.emb : Len(x.emb[i][2]) # Cardinality(ToSet(x.emb[i][2])) THEN {"repeat"} ELSE {})
    IN  IF x.bad THEN (IF x.ret = "exc" THEN {} ELSE {"accepted"})
        ELSE IF x.ret = "exc" THEN (IF x.keep /\ m.ordered < 2 THEN {} ELSE {"refused"})
        ELSE IF x.keep /\ m.ordered = 0 THEN {"kept-nothing"}
        ELSE IF shape # {} THEN shape
        ELSE IF ~(x.clear \/ ~m.passed) /\ ~m.known THEN {}
        ELSE QpFaults(c, before, x.order, x.len, x.over, e)

StepFaults(c, m, x) ==
    CASE x.op = "quick" -> QuickFaults(c, m, x)
      [] x.op = "find" -> SearchFaults(c, m.init, x.reps[1])
      [] x.op = "many" ->
            ManyFaults(c, [i \in DOMAIN x.reps |-> m.init], x.reps, 1)
            \cup (IF \E i \in DOMAIN x.reps : x.reps[i].emb = <<>> THEN {"many-empty"} ELSE {})
            \cup (IF Len(x.reps) > Max2(x.n, 0) \/ ((x.force \/ c.overlap) /\ Len(x.reps) < x.n)
                  THEN {"many-count"} ELSE {})
      [] x.op = "improve" ->
            (IF Len(x.reps) # Len(x.starts) THEN {"improve-count"}
             ELSE ManyFaults(c, x.starts, x.reps, 1))
      [] x.op = "key" ->
            (IF Quality(c, x.emb, x.embedded) # x.key THEN {"quality-key"} ELSE {})
      [] OTHER -> {}

After(c, m, x) ==
    CASE x.op = "quick" -> IF x.ret = "exc" THEN m
                           ELSE [m EXCEPT !.best = Full(c, x.emb), !.known = TRUE, !.passed = TRUE,
                                          !.ordered = IF x.strategy THEN 2 ELSE @]
      [] x.op \in {"find", "many"} ->
            IF x.op = "many" /\ ~x.force /\ ~c.overlap /\ Len(x.reps) < x.n
            THEN [m EXCEPT !.known = FALSE, !.ordered = Max2(1, @)]
            ELSE SearchedAll(c, m, x.reps, 1)
      [] x.op = "improve" ->
            SearchedAll(c, IF x.starts = <<>> THEN m ELSE [m EXCEPT !.init = x.starts[Len(x.starts)]],
                        x.reps, 1)
      [] x.op = "init" -> [m EXCEPT !.init = x.chains]
      [] OTHER -> m

RECURSIVE HistoryFaults(_, _, _, _)
HistoryFaults(c, m, steps, i) ==
    IF i > Len(steps) THEN {}
    ELSE LET f == StepFaults(c, m, steps[i])
         IN  IF f # {} THEN f       \* after a wrong reply the state is not known
             ELSE HistoryFaults(c, TLCEval(After(c, m, steps[i])), steps, i + 1)
=============================================================================
