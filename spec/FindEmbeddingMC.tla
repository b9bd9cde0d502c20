--------------------------- MODULE FindEmbeddingMC ---------------------------
(* The driver under the model checker, for all small budgets, all sequences of  *)
(* results of the passes, and stops at every poll.                              *)
EXTENDS FindEmbedding

CONSTANTS MaxTries, MaxMni, MaxInner, MaxCp, Slack, Sizes, Cnts
VARIABLES s,        \* the driver
          asked,    \* polls after the first stop
          trials    \* trial messages so far
vars == <<s, asked, trials>>

Params == [tries : 0..MaxTries, mni : 0..MaxMni, inner : 0..MaxInner, cp : 0..MaxCp,
           skip : {0, 1}, interactive : {0, 1}, slack : {Slack}]

Events == { <<"poll", a, 0>> : a \in 0..2 } \cup { <<"stop", a, 0>> : a \in 1..2 }
   \cup { <<k, 0, 0>> : k \in {"init", "found", "reduce"} }
   \cup { <<k, a, n>> : k \in {"fill", "chain", "passq", "cpassq"}, a \in Sizes, n \in Cnts }
   \cup { <<"minor", n, 0>> : n \in Cnts }
   \cup { <<"trial", k, 0>> : k \in 1..MaxTries }
   \cup { <<k, m, 0>> : k \in {"pass", "cpass"}, m \in -1..(MaxMni + MaxInner + MaxCp) }
   \cup { <<"end", r, 0>> : r \in 0..1 } \cup { <<"exc", x, 0>> : x \in 1..2 }

Init == /\ \E p \in Params : s = Start(p)
        /\ asked = 0 /\ trials = 0

Observe == \E ev \in Events :
    /\ s' \in Obs(s, ev)
    /\ asked' = asked + (IF ev[1] = "poll" /\ (asked > 0 \/ ev[2] # 0) THEN 1 ELSE 0)
    /\ trials' = trials + (IF ev[1] = "trial" THEN 1 ELSE 0)
Quiet == s' \in Hidden(s) /\ UNCHANGED <<asked, trials>>
Done == s.pc \in {"done", "failed"} /\ UNCHANGED vars
Next == Observe \/ Quiet \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Observe \/ Quiet)

\* ------------------------------------------------------------- properties
\* it always comes to an end
Terminates == <>(s.pc \in {"done", "failed"})
\* it never sits in a state from which nothing can happen
NotStuck == s.pc \in {"done", "failed"} \/ ENABLED (Observe \/ Quiet)
\* once told to stop, it does not begin another pass, nor ask again
StopIsProgress == asked <= 1
StoppedRests == s.stopped => s.pc \in {"stopfirst", "foundmsg", "end", "done"}
\* it does not give up while it has patience, nor go on when it has lost it
Budget == /\ s.T >= 0 /\ trials = (s.par.tries - s.T) - (IF s.pc = "trial" THEN 1 ELSE 0)
          /\ s.P >= 0 /\ s.R >= -1
\* the return value tells whether an embedding was found
Truth == s.pc = "done" => s.ret = s.emb
\* an embedding that was found is never given up
Kept == [][s.emb = 1 => s'.emb = 1]_vars
\* the best embedding only improves, except that a restart begins anew
Improves == [][ (s.size # 0 /\ s'.size # 0 /\ s.emb = s'.emb /\ <<s.size, s.cnt>> # <<s'.size, s'.cnt>>)
                => (s'.size < s.size \/ (s'.size = s.size /\ s'.cnt < s.cnt)) ]_vars
\* whatever is returned has been looked at
Known == s.pc = "done" => s.size > 0
=============================================================================
