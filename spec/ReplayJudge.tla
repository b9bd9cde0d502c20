----------------------------- MODULE ReplayJudge -----------------------------
(* Recorded histories of seeded calls against Replay.  A row has h, a sequence  *)
(* of <<key, reply>>, and why, the aspect that the call varies at each position *)
EXTENDS Replay, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i
Empty == [x \in {} |-> ""]
Faults(x) == { x.why[p] : p \in Clashes(Empty, x.h, 1) }
Complain(n, S) == \A f \in S : PrintT(<<"REJECT", n, f>>)
Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ Complain(i', Faults(Rows[i']))
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
==============================================================================
