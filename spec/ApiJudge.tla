------------------------------ MODULE ApiJudge ------------------------------
(* Replays recorded calls of find_embedding (and of a miner) against the       *)
(* contract in FindEmbeddingApi.                                               *)
EXTENDS FindEmbeddingApi, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

PairMap(s) == TLCEval([v \in { s[j][1] : j \in DOMAIN s } |->
                 ToSet(s[CHOOSE j \in DOMAIN s : s[j][1] = v][2])])
SeqMap(s) == TLCEval([v \in { s[j][1] : j \in DOMAIN s } |->
                 s[CHOOSE j \in DOMAIN s : s[j][1] = v][2]])

Call(x) == [ns |-> x.ns, sedges |-> x.sedges, tadj |-> Adj(x.tadj),
            overlap |-> x.overlap = 1,
            fixed |-> PairMap(x.fixed), restr |-> PairMap(x.restr),
            blobs |-> { <<x.blobs[j][1], ToSet(x.blobs[j][2])>> : j \in DOMAIN x.blobs },
            maxfill |-> x.maxfill, free |-> x.free = 1,
            init |-> SeqMap(x.init)]
Reply(x) == [ret |-> x.ret, flag |-> x.flag, emb |-> x.emb, bug |-> x.bug = 1]

Complain(n, S) == \A f \in S : PrintT(<<"REJECT", n, f>>)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ Complain(i', ReplyFaults(Call(Rows[i']), Reply(Rows[i'])))
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
