-------------------------------- MODULE Replay --------------------------------
(* A system whose replies are determined by the calls: the state is what has    *)
(* been replied to each call so far, and the only step is a call whose reply    *)
(* agrees with that.  A history is a sequence of <<key, reply>>; key identifies *)
(* everything the reply may depend on, so it leaves out what it must not depend *)
(* on: what was called before, verbosity, the number (>1) of threads, the       *)
(* process.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CallOk(mem, k, r) == k \in DOMAIN mem => mem[k] = r
After(mem, k, r) == (k :> r) @@ mem

RECURSIVE Clashes(_, _, _)
\* positions of a history at which a reply contradicts the memory
Clashes(mem, h, i) ==
    IF i > Len(h) THEN {}
    ELSE IF CallOk(mem, h[i][1], h[i][2])
         THEN Clashes(TLCEval(After(mem, h[i][1], h[i][2])), h, i + 1)
         ELSE {i} \cup Clashes(mem, h, i + 1)
===============================================================================
