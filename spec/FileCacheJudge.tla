--------------------------- MODULE FileCacheJudge ----------------------------
(* Histories of processes and threads that used one cache directory, some of   *)
(* which died.  Each key is a register: it holds what was computed (0) until   *)
(* something is stored.  The operations on it must have taken effect one after *)
(* the other, each between its beginning a and its end b; those of a process   *)
(* that died took effect entirely or not at all.  (FileCache derives this from *)
(* the protocol: Faithful, Durable.)                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

RECURSIVE Serial(_, _, _)
Serial(ops, todo, val) ==
    \/ \A k \in todo : ops[k].dead
    \/ \E k \in todo :
        /\ \A l \in todo : ~(ops[l].b < ops[k].a)
        /\ IF ops[k].t = "write" THEN Serial(ops, todo \ {k}, ops[k].v)
           ELSE ops[k].v = val /\ Serial(ops, todo \ {k}, val)

HistoryFaults(x) ==
    LET D == DOMAIN x.ops
        keys == { x.ops[k].k : k \in D }
        odd == { k \in D : x.ops[k].v < 0 }
    IN       { CASE x.ops[k].v = -2 -> "exception" [] x.ops[k].v = -3 -> "stuck" [] OTHER -> "unknown" : k \in odd }
        \cup (IF odd = {} /\ \E y \in keys : ~Serial(x.ops, { k \in D : x.ops[k].k = y }, 0)
              THEN {"order"} ELSE {})
        \cup (IF x.files > 100 + x.crashes THEN {"too-many"} ELSE {})

\* ------------------------------------------------------------ the least recently used
RECURSIVE Without(_, _)
Without(s, v) == IF s = <<>> THEN <<>> ELSE (IF s[1] = v THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), v)

RECURSIVE Recent(_, _, _, _)
Recent(x, k, list, size) ==
    IF k > Len(x.steps) THEN TRUE
    ELSE LET s == x.steps[k]
             all == <<s.file>> \o Without(list, s.file)
             over == IF Len(all) > size THEN { all[Len(all)] } ELSE {}
             kept == IF over = {} THEN all ELSE SubSeq(all, 1, size)
         IN  IF s.file = 0 THEN Recent(x, k + 1, <<>>, size)
             ELSE /\ { s.made[j] : j \in DOMAIN s.made } = {s.file} \ { list[j] : j \in DOMAIN list }
                  /\ { s.gone[j] : j \in DOMAIN s.gone } = over
                  /\ Recent(x, k + 1, TLCEval(kept), size)
LruFaults(x) == IF Recent(x, 1, <<>>, x.limit) THEN {} ELSE {"lru"}

Faults(x) == IF "steps" \in DOMAIN x THEN LruFaults(x) ELSE HistoryFaults(x)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
