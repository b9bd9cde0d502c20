---------------------------- MODULE IdentityJudge ----------------------------
(* Identifiers of topologies.  key describes family, dimensions, seed, nodes   *)
(* and couplers in canonical form; coarse leaves out the seed and the odd      *)
(* couplers (on which identifiers need not depend).                            *)
(* - the identifier is a function of the key                                   *)
(* - within a family it tells coarse descriptions apart                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Faults(x) ==
    LET D == DOMAIN x.items
        A(k) == x.items[k]
    IN  (IF \E k, l \in D : A(k).key = A(l).key /\ (A(k).id # A(l).id \/ A(k).short # A(l).short)
         THEN {"split"} ELSE {})
        \cup (IF \E k, l \in D : A(k).family = A(l).family
                                  /\ A(k).coarse # A(l).coarse /\ A(k).id = A(l).id THEN {"merged"} ELSE {})
        \cup (IF \E k, l \in D : A(k).id = A(l).id /\ A(k).short # A(l).short THEN {"misplaced"} ELSE {})

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
