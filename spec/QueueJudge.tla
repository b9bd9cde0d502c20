----------------------------- MODULE QueueJudge -----------------------------
(* Histories of the priority queue: emplaced nodes <<dist, dirt, node>>,       *)
(* observed tops and pops, judged against the bag that PairingQueue refines.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

\* sign: 1 for a min heap, -1 for a max heap
Before(sign, x, y) == IF sign = 1 THEN x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
                      ELSE x[1] > y[1] \/ (x[1] = y[1] /\ x[2] > y[2])
At(bag, x) == IF x \in DOMAIN bag THEN bag[x] ELSE 0
Put(bag, x) == TLCEval((x :> (At(bag, x) + 1)) @@ bag)
Take(bag, x) == TLCEval(IF bag[x] = 1 THEN [y \in DOMAIN bag \ {x} |-> bag[y]]
                        ELSE [bag EXCEPT ![x] = @ - 1])
None == [y \in {} |-> 0]

RECURSIVE Run(_, _, _, _, _)
\* last: the node that the last top has shown
Run(sign, ops, k, bag, last) ==
    IF k > Len(ops) THEN {}
    ELSE LET o == ops[k]  x == o[2] IN
         CASE o[1] = 1 -> Run(sign, ops, k + 1, Put(bag, x), x)
           [] o[1] = 2 -> IF x \notin DOMAIN bag THEN {"stranger"}
                          ELSE IF \E y \in DOMAIN bag : Before(sign, y, x) THEN {"not-least"}
                          ELSE Run(sign, ops, k + 1, bag, x)
           [] o[1] = 3 -> Run(sign, ops, k + 1, Take(bag, last), last)
           [] o[1] = 4 -> Run(sign, ops, k + 1, None, last)
           [] o[1] = 5 -> IF (x[1] = 1) # (DOMAIN bag = {}) THEN {"empty"}
                          ELSE Run(sign, ops, k + 1, bag, last)

Faults(x) == Run(x.sign, x.ops, 1, None, <<0, 0, 0>>)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
