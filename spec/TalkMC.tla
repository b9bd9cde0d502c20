------------------------------- MODULE TalkMC --------------------------------
(* The driver with a listener who hears only the messages of level 1 and may    *)
(* send a signal at any time: what the listener believes is true in the end.    *)
EXTENDS Talk

CONSTANTS MaxTries, MaxMni, MaxInner, MaxCp, Slack, Sizes, Cnts
VARIABLES s,        \* the driver
          heard,    \* [found, size, trial, over]: what the listener makes of the messages
          pending,  \* a signal has been sent and not been noticed
          sent      \* a signal has been sent
vars == <<s, heard, pending, sent>>

Params == [tries : 0..MaxTries, mni : 1..MaxMni, inner : 1..MaxInner, cp : 0..MaxCp,
           skip : {0, 1}, interactive : {0, 1}, slack : {Slack}]
Messages == { <<"stop", a, 0>> : a \in 1..2 }
   \cup { <<k, 0, 0>> : k \in {"init", "found", "reduce"} }
   \cup { <<k, a, n>> : k \in {"fill", "chain", "passq", "cpassq"}, a \in Sizes, n \in Cnts }
   \cup { <<"minor", n, 0>> : n \in Cnts }
   \cup { <<"trial", k, 0>> : k \in 1..MaxTries }
   \cup { <<k, m, 0>> : k \in {"pass", "cpass"}, m \in -1..(MaxMni + MaxInner + MaxCp) }
   \cup { <<"end", r, 0>> : r \in 0..1 } \cup { <<"exc", x, 0>> : x \in 1..2 }

Listen(h, ev) ==
    IF LevelOf(ev) # 1 THEN h
    ELSE CASE ev[1] = "found" -> [h EXCEPT !.found = 1]
           [] ev[1] \in {"fill", "chain"} -> [h EXCEPT !.size = ev[2]]
           [] ev[1] = "trial" -> [h EXCEPT !.trial = ev[2]]
           [] ev[1] = "stop" -> [h EXCEPT !.over = ev[2]]
           [] OTHER -> h

Init == /\ \E p \in Params : s = Start(p)
        /\ heard = [found |-> 0, size |-> 0, trial |-> 0, over |-> 0]
        /\ pending = FALSE /\ sent = FALSE

Speak == \E ev \in Messages : /\ s' \in Obs(s, ev)
                              /\ heard' = Listen(heard, ev)
                              /\ UNCHANGED <<pending, sent>>
Ask == \/ /\ ~pending /\ \E a \in {0, 1} : s' \in Poll(s, a)
          /\ UNCHANGED <<heard, pending, sent>>
       \/ /\ pending /\ s' \in Poll(s, 2) /\ pending' = FALSE /\ UNCHANGED <<heard, sent>>
Quiet == s' \in Hidden(s) /\ UNCHANGED <<heard, pending, sent>>
Signal == /\ ~sent /\ s.pc \notin {"done", "failed"}
          /\ sent' = TRUE /\ pending' = TRUE /\ UNCHANGED <<s, heard>>
Done == s.pc \in {"done", "failed"} /\ UNCHANGED vars
Next == Speak \/ Ask \/ Quiet \/ Signal \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Speak \/ Ask \/ Quiet)

Over == s.pc \in {"done", "failed"}
\* the listener knows the outcome
KnowsFound == s.pc = "done" => heard.found = s.ret
\* and how good it is, though the messages of level 2 do not get through
KnowsSize == s.pc = "done" => heard.size = s.size
\* and why the search ended early
KnowsWhy == (Over /\ heard.over # 0) => heard.over = s.why
Trials == heard.trial <= s.par.tries
\* a signal that the search noticed: the interactive one replies, the other one raises
Noticed == (Over /\ s.why = 2) =>
           IF s.par.interactive = 1 THEN s.pc = "done" ELSE s.pc = "failed"
Unprovoked == s.why = 2 => sent
\* every message is of a level that some verbosity shows
Leveled == \A ev \in Messages : LevelOf(ev) \in 0..3
Terminates == <>Over
=============================================================================
