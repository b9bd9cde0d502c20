-------------------------- MODULE CliqueCacheJudge ---------------------------
(* Recorded histories of busgraph_cache objects are histories of CliqueCache:  *)
(* each object holds nothing or a cache, the disk holds nothing or a cache for *)
(* each seed, and what is neither in memory nor on disk is computed (native).  *)
EXTENDS CliqueCache, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

SetOf(s) == { s[k] : k \in DOMAIN s }
None == [none |-> TRUE]
IsNone(c) == "none" \in DOMAIN c
Table(t) == [n \in { t[k][1] : k \in DOMAIN t } |-> t[CHOOSE k \in DOMAIN t : t[k][1] = n][2]]
Decode(c) == TLCEval([size |-> Table(c.size), length |-> Table(c.length)])

SumLen(e) == LET S[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE S[k-1] + Len(e[k]) IN S[Len(e)]
SumIds(e) == LET C(c) == LET S[k \in 0..Len(c)] == IF k = 0 THEN 0 ELSE S[k-1] + c[k] IN S[Len(c)]
                 S[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE S[k-1] + C(e[k])
             IN S[Len(e)]
Q(w, e) == CASE w = "none" -> -Longest(e)
             [] w = "fewest" -> -SumLen(e)
             [] w = "long" -> Longest(e)
             [] w = "const" -> 0
             [] w = "ids" -> SumIds(e) % 5
             [] w = "default" -> Cardinality({ k \in DOMAIN e : Len(e[k]) = Longest(e) }) - 1000 * Longest(e)

Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : SetOf(a[k]) = SetOf(b[k])

RECURSIVE Run(_, _, _, _, _)
\* disk and mem before step k; the clauses that the rest of the history breaks
Run(x, k, mem, disk, native) ==
    IF k > Len(x.steps) THEN {}
    ELSE
    LET s == x.steps[k]
        o == s.o
        seed(p) == x.seeds[p]
        got(p) == IF ~IsNone(mem[p]) THEN mem[p]
                  ELSE IF ~IsNone(disk[seed(p)]) THEN disk[seed(p)] ELSE native[seed(p)]
        started(p) == IF IsNone(mem[p]) THEN Blank ELSE mem[p]
        \* reading what is not in memory leaves it in memory and on disk
        readmem(p) == [mem EXCEPT ![p] = got(p)]
        readdisk(p) == IF IsNone(mem[p]) /\ IsNone(disk[seed(p)])
                       THEN [disk EXCEPT ![seed(p)] = native[seed(p)]] ELSE disk
        put(c, m, d) == Run(x, k + 1, [m EXCEPT ![o] = c],
                            IF s.write THEN [d EXCEPT ![seed(o)] = c] ELSE d, native)
        ask(bad) == bad \cup Run(x, k + 1, readmem(o), readdisk(o), native)
    IN  CASE s.op = "open" -> Run(x, k + 1, [mem EXCEPT ![o] = None], disk, native)
          [] s.op = "wipe" -> Run(x, k + 1, mem, [z \in DOMAIN disk |-> None], native)
          [] s.op = "insert" ->
                put(TLCEval(Merge(started(o), FromEmbedding(s.emb), LAMBDA e : Q(s.q, e))), mem, disk)
          [] s.op = "direct" -> put(TLCEval(Direct(started(o), s.emb)), mem, disk)
          [] s.op = "update" -> put(TLCEval(DirectAll(started(o), s.embs)), mem, disk)
          [] s.op = "merge" ->
                LET c == TLCEval(Merge(started(o), IF s.p = o THEN started(o) ELSE got(s.p), LAMBDA e : Q(s.q, e)))
                IN  IF s.p = o THEN put(c, mem, disk) ELSE put(c, readmem(s.p), readdisk(s.p))
          [] s.op = "mine" ->
                \* at least as good as what the disk had, and everything is written
                LET a == Decode(s.cache)
                    b == IF IsNone(disk[seed(o)]) THEN Blank ELSE disk[seed(o)]
                IN  (IF \E n \in DOMAIN b.size \ {0} : n \notin DOMAIN a.size THEN {"mined-lost"} ELSE {})
                    \cup (IF \E n \in (DOMAIN b.size \cap DOMAIN a.size) \ {0} :
                                Q(s.q, Answer(a, n)) < Q(s.q, Answer(b, n)) THEN {"mined-worse"} ELSE {})
                    \cup put(a, mem, disk)
          [] s.op = "mines" ->      \* asked twice, without and with the default
                (IF Decode(s.one) # Decode(s.two) THEN {"mined-default"} ELSE {})
                \cup Run(x, k + 1, mem, disk, native)
          [] s.op = "sparse" ->
                LET c == got(o)  t == Table(s.reply) IN
                ask(IF DOMAIN t # DOMAIN c.size \/ \E n \in DOMAIN t : ~Same(t[n], Answer(c, n))
                    THEN {"sparse"} ELSE {})
          [] s.op = "dense" ->
                LET c == got(o)  top == IF DOMAIN c.size = {} THEN -1 ELSE CC_Max(DOMAIN c.size) IN
                ask(IF Len(s.reply) # top + 1 \/ \E n \in 0..(Len(s.reply) - 1) : ~Same(s.reply[n + 1], Answer(c, n))
                    THEN {"dense"} ELSE {})
          [] s.op = "find" -> ask(IF ~Same(s.reply, Answer(got(o), s.n)) THEN {"find"} ELSE {})
          [] s.op = "largest" -> ask(IF ~Same(s.reply, Largest(got(o))) THEN {"largest"} ELSE {})
          [] s.op = "bylength" ->
                ask((IF Len(s.reply) # Count(got(o), s.n) THEN {"by-length"} ELSE {})
                    \cup (IF Longest(s.reply) > s.n /\ s.reply # <<>> THEN {"too-long"} ELSE {}))

Faults(x) == Run(x, 1, [o \in DOMAIN x.seeds |-> None], [s \in DOMAIN x.native |-> None],
                 TLCEval([s \in DOMAIN x.native |-> Decode(x.native[s])]))

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
