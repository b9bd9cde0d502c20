----------------------------- MODULE MinerJudge -----------------------------
(* Recorded histories of miner objects against the Miner machine.              *)
EXTENDS Miner, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Call(x) == [ns |-> x.ns, sedges |-> x.sedges, tadj |-> Adj(x.tadj), overlap |-> x.overlap = 1,
            fixed |-> MapOf(x.fixed), restr |-> MapOf(x.restr),
            blobs |-> { <<x.blobs[j][1], ToSet(x.blobs[j][2])>> : j \in DOMAIN x.blobs },
            maxfill |-> x.maxfill, free |-> x.free = 1, init |-> <<>>]

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ LET x == Rows[i']
               S == HistoryFaults(Call(x), Start0(x.initial), x.steps, 1)
           IN  \A f \in S : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
