-------------------------------- MODULE Talk ---------------------------------
(* What a search says to the user, and how the user stops it.  The driver       *)
(* (FindEmbedding) speaks at three levels; verbose = v lets the messages of     *)
(* levels 1..v through, to the logger or, in interactive mode, to stdout.       *)
(* A signal is noticed at the next poll; a time limit at some poll.             *)
(*                                                                              *)
(* Hear(s, ev, may): the states after the listener, who does not see polls,     *)
(* hears ev.  may: the kinds of stop that can come unseen (1 out of time).      *)
(* <<"signal", 0, 0>> is the moment at which the search notices a signal;       *)
(* <<"kill", 0, 0>> the one at which a signal arrives: from then on (pending)   *)
(* a poll can have no other outcome than that it is noticed.                    *)
EXTENDS FindEmbedding

LevelOf(ev) == CASE ev[1] \in {"pass", "passq", "cpass", "cpassq"} -> 3
                 [] ev[1] = "minor" -> 2
                 [] ev[1] \in {"init", "found", "fill", "chain", "trial", "reduce", "stop"} -> 1
                 [] OTHER -> 0          \* what is not a message
Filter(evs, v) == SelectSeq(evs, LAMBDA e : LevelOf(e) <= v)

Polled(s, may, pending) ==
    UNION { Poll(s, a) : a \in IF pending THEN {2} ELSE {0} \cup may }
Once(S, may, pending) == S \cup UNION { Hidden(t) \cup Polled(t, may, pending) : t \in S }
\* between two things that can be heard: a pass that ends, a restart, its poll
Before(s, may, pending) == Once(Once(Once({s}, may, pending), may, pending), may, pending)

Hear(s, ev, may, pending) ==
    CASE ev[1] = "kill" -> {s}
      [] ev[1] = "signal" -> UNION { Poll(t, 2) : t \in Before(s, may, pending) }
      [] OTHER -> UNION { Obs(t, ev) : t \in Before(s, may, pending) }
=============================================================================
