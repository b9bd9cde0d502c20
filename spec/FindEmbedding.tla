---------------------------- MODULE FindEmbedding ----------------------------
(* The driver of the heuristic: initialization, trials, rounds of passes that   *)
(* reduce overlap, restarts, passes that shorten chains, the bookkeeping of the *)
(* best embedding, and what happens when somebody wants it to stop.             *)
(*                                                                              *)
(* What a pass does to the chains is abstracted to the quality of the best      *)
(* embedding before and after; everything the driver says and asks is an event: *)
(*   <<"poll", a, 0>>    it asks whether to stop; a = 0 go on, 1 out of time,   *)
(*                       2 cancelled.  Asked once at the end of every pass that *)
(*                       was not cut short because a variable found no place.   *)
(*   <<"stop", a, 0>>    it acknowledges a stop                                 *)
(*   <<"init", 0, 0>>    `initialized'                                          *)
(*   <<"found", 0, 0>>   `embedding found'                                      *)
(*   <<"fill", f, n>>    n qubits in f chains, no qubit in more (not embedded)  *)
(*   <<"chain", l, n>>   n chains of length l, none longer (embedded)           *)
(*   <<"minor", n, 0>>   the same f or l as before, and only n of them          *)
(*   <<"trial", k, 0>>   trial k begins                                         *)
(*   <<"pass", m, 0>>, <<"passq", f, n>>     an overlap pass begins             *)
(*   <<"reduce", 0, 0>>  chain lengths from here on                             *)
(*   <<"cpass", m, 0>>, <<"cpassq", l, n>>   a chain length pass begins         *)
(*   <<"end", r, 0>>     it returns r                                           *)
(*   <<"exc", x, 0>>     x = 1 bad initialization, 2 cancelled                  *)
(*                                                                              *)
(* Succ(s, ev) is the set of states after ev from s; Hidden(s) the steps that   *)
(* nobody can see (a pass in which some variable finds no place).  The model checker explores both, the    *)
(* trace specification (DriverTrace) runs Succ over recorded events.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b

\* par: tries, mni (max_no_improvement), inner (inner_rounds), cp (chainlength_patience),
\*      skip, interactive, slack (how many improvements may be silent in a row)
\* size = 0: no embedding has been looked at yet
Start(par) ==
    [pc |-> "start", par |-> par, T |-> par.tries, P |-> 0, R |-> 0,
     emb |-> 0, size |-> 0, cnt |-> 0, imp |-> FALSE, stopped |-> FALSE, slack |-> par.slack,
     ret |-> -1, why |-> 0, from |-> ""]

At(s, pc) == [s EXCEPT !.pc = pc]
Stopping(s, a, from) == [s EXCEPT !.pc = "stopping", !.why = a, !.from = from]

\* ------------------------------------------------------------- control
ChainLoop(s) == IF s.P # 0 THEN At(s, "cpass") ELSE At(s, "end")

ChainTop(s) ==
    IF s.emb = 1 /\ s.par.cp # 0 /\ ~s.stopped
    THEN [s EXCEPT !.pc = "reduce", !.P = s.par.cp]
    ELSE At(s, "end")

TrialTop(s) ==
    IF s.T # 0 /\ s.emb = 0
    THEN [s EXCEPT !.pc = "trial", !.T = s.T - 1, !.P = s.par.mni, !.R = s.par.inner]
    ELSE ChainTop(s)

RoundTop(s) ==
    IF s.R # 0 /\ s.P # 0 /\ s.emb = 0
    THEN [s EXCEPT !.pc = "pass", !.R = s.R - 1]
    ELSE IF s.T # 0 /\ s.emb = 0 /\ s.P = 0
         THEN [s EXCEPT !.pc = "restart", !.imp = FALSE]
         ELSE TrialTop(s)

\* the end of a pass with the verdict r of the code: 1 improved, 0 not, -1 failed
PassEnd(s, r) ==
    LET t == [s EXCEPT !.P = IF r = 1 THEN s.par.mni ELSE s.P - 1, !.imp = FALSE]
    IN  RoundTop(t)
CPassEnd(s, r) ==
    LET t == [s EXCEPT !.P = IF r = 1 THEN s.par.cp ELSE s.P - 1, !.imp = FALSE]
    IN  ChainLoop(t)

\* ------------------------------------------------------------- quality
\* states in which chains have changed and may be compared with the best
Looking(s) == s.pc \in {"inpass", "incpass"} /\ ~(s.pc = "inpass" /\ s.emb = 1)
\* states in which the chains are the first ones, and must be recorded
First(s) == s.pc \in {"first", "stopfirst", "refirst"}

AfterFirst(s) ==
    CASE s.pc \in {"first", "refirst"} -> TrialTop([s EXCEPT !.imp = FALSE])
      [] s.pc = "stopfirst" -> At(s, "end")
      [] OTHER -> [s EXCEPT !.imp = TRUE, !.slack = s.par.slack]

Better(s, a, n) == s.size = 0 \/ a < s.size
Record(s, a, n) == [s EXCEPT !.size = a, !.cnt = n]

Improve(s, ev) ==
    IF ~(Looking(s) \/ First(s)) THEN {}
    ELSE CASE ev[1] = "found" ->
                IF s.emb = 0 THEN { [s EXCEPT !.emb = 1, !.size = 0, !.cnt = 0,
                                            !.pc = "foundmsg", !.from = s.pc] } ELSE {}
           [] ev[1] = "fill" ->
                IF s.emb = 0 /\ ev[2] >= 2 /\ ev[3] >= 1 /\ Better(s, ev[2], ev[3])
                THEN { AfterFirst(Record(s, ev[2], ev[3])) } ELSE {}
           [] ev[1] = "chain" ->
                IF s.emb = 1 /\ ev[2] >= 1 /\ ev[3] >= 1 /\ s.size # 0 /\ ev[2] < s.size
                THEN { AfterFirst(Record(s, ev[2], ev[3])) } ELSE {}
           [] ev[1] = "minor" ->
                IF s.size # 0 /\ ev[2] < s.cnt /\ ev[2] >= 1
                THEN { AfterFirst(Record(s, s.size, ev[2])) } ELSE {}
           [] OTHER -> {}

\* `embedding found' is followed by the lengths of its chains
FoundThen(s, ev) ==
    IF ev[1] = "chain" /\ ev[2] >= 1 /\ ev[3] >= 1
    THEN { AfterFirst([Record(s, ev[2], ev[3]) EXCEPT !.pc = s.from]) } ELSE {}

\* ------------------------------------------------------------- polls
Poll(s, a) ==
    CASE s.pc = "start" /\ s.par.skip = 0 ->
           { IF a = 0 THEN At(s, "initmsg") ELSE Stopping(s, a, "start") }
      [] s.pc = "inpass" ->
           IF a # 0 THEN { Stopping(s, a, "inpass") }
           ELSE IF s.imp THEN { PassEnd(s, 1) }
           ELSE { PassEnd(s, 0) } \cup
                (IF s.slack > 0 THEN { PassEnd([s EXCEPT !.slack = s.slack - 1], 1) } ELSE {})
      [] s.pc = "incpass" ->
           IF a # 0 THEN { Stopping(s, a, "incpass") }
           ELSE IF s.imp THEN { CPassEnd(s, 1) }
           ELSE { CPassEnd(s, 0) } \cup
                (IF s.slack > 0 THEN { CPassEnd([s EXCEPT !.slack = s.slack - 1], 1) } ELSE {})
      [] s.pc = "restart" ->
           { IF a = 0 THEN [s EXCEPT !.pc = "refirst", !.size = 0, !.cnt = 0]
                      ELSE Stopping(s, a, "restart") }
      [] OTHER -> {}

\* a stop: cancelling propagates to the caller unless the search is interactive, anything
\* else ends the search with what there is
Stop(s, a) ==
    IF a # s.why THEN {}
    ELSE IF a = 2 /\ s.par.interactive = 0 THEN { At(s, "cancelled") }
    ELSE LET t == [s EXCEPT !.stopped = TRUE] IN
         IF s.from = "start" THEN { At(t, "stopfirst") } ELSE { At(t, "end") }

\* ------------------------------------------------------------- events
Msg(s, ev) ==
    CASE s.pc = "start" /\ s.par.skip = 1 /\ ev[1] = "init" -> { At(s, "first") }
      [] s.pc = "initmsg" /\ ev[1] = "init" -> { At(s, "first") }
      [] s.pc = "trial" /\ ev[1] = "trial" ->
            IF ev[2] = s.par.tries - s.T THEN { RoundTop(s) } ELSE {}
      [] s.pc = "pass" /\ ev[1] = "pass" ->
            IF ev[2] = Min(s.P, s.R) - 1 THEN { At(s, "passq") } ELSE {}
      [] s.pc = "passq" /\ ev[1] = "passq" ->
            IF ev[2] = s.size /\ ev[3] = s.cnt THEN { [s EXCEPT !.pc = "inpass", !.imp = FALSE] } ELSE {}
      [] s.pc = "reduce" /\ ev[1] = "reduce" -> { ChainLoop(s) }
      [] s.pc = "cpass" /\ ev[1] = "cpass" ->
            IF ev[2] = s.P - 1 THEN { At(s, "cpassq") } ELSE {}
      [] s.pc = "cpassq" /\ ev[1] = "cpassq" ->
            IF ev[2] = s.size /\ ev[3] = s.cnt THEN { [s EXCEPT !.pc = "incpass", !.imp = FALSE] } ELSE {}
      [] s.pc = "end" /\ ev[1] = "end" ->
            IF ev[2] = s.emb THEN { [s EXCEPT !.pc = "done", !.ret = ev[2]] } ELSE {}
      [] s.pc = "start" /\ ev[1] = "exc" -> IF ev[2] = 1 THEN { At(s, "failed") } ELSE {}
      [] s.pc = "cancelled" /\ ev[1] = "exc" -> IF ev[2] = 2 THEN { At(s, "failed") } ELSE {}
      [] OTHER -> {}

Obs(s, ev) ==
    IF ev[1] = "poll" THEN Poll(s, ev[2])
    ELSE IF s.pc = "stopping" THEN (IF ev[1] = "stop" THEN Stop(s, ev[2]) ELSE {})
    ELSE IF s.pc = "foundmsg" THEN FoundThen(s, ev)
    ELSE IF ev[1] \in {"found", "fill", "chain", "minor"} THEN Improve(s, ev)
    ELSE Msg(s, ev)

\* a pass that could not place a variable ends at once, without asking
Hidden(s) ==
    CASE s.pc = "inpass" /\ s.emb = 0 -> { PassEnd(s, -1) }
      [] s.pc = "restart" -> { TrialTop([s EXCEPT !.imp = FALSE]) }
      [] OTHER -> {}
Closure1(S) == S \cup UNION { Hidden(s) : s \in S }
Succ(s, ev) == UNION { Obs(t, ev) : t \in Closure1(Closure1({s})) }
=============================================================================
