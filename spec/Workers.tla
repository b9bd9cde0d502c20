------------------------------- MODULE Workers -------------------------------
(* The parallel search for distances: the neighbours of a variable are jobs     *)
(* that threads take one at a time under a lock; a thread that finds no more    *)
(* jobs ends; when all threads have ended, ranges of qubits are summed up by    *)
(* threads again.  Whatever the schedule, every embedded neighbour has been     *)
(* searched exactly once, before anything is summed up, and the sums are those  *)
(* of the serial search.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS N,          \* neighbours 1..N
          T,          \* threads 1..T
          Q,          \* qubits 1..Q
          Embedded    \* neighbours that have a chain

VARIABLES next, lock, tpc, job, dist, sum, phase, done, parts
vars == <<next, lock, tpc, job, dist, sum, phase, done, parts>>

\* what the search from neighbour v finds at qubit q: anything, as long as it is a function
D(v, q) == 10 * v + q

\* the qubits of thread t: consecutive ranges, the first ones longer by one
Size(t) == (Q \div T) + (IF t <= Q % T THEN 1 ELSE 0)
RECURSIVE Lo(_)
Lo(t) == IF t = 1 THEN 1 ELSE Lo(t - 1) + Size(t - 1)
Range(t) == Lo(t)..(Lo(t) + Size(t) - 1)

Init == /\ next = 1 /\ lock = 0 /\ phase = "search"
        /\ tpc = [t \in 1..T |-> "wait"]
        /\ job = [t \in 1..T |-> 0]
        /\ dist = [v \in 1..N |-> [q \in 1..Q |-> 0]]
        /\ done = [v \in 1..N |-> 0]
        /\ sum = [q \in 1..Q |-> 0]
        /\ parts = {}

Acquire(t) == /\ phase = "search" /\ tpc[t] = "wait" /\ lock = 0
              /\ lock' = t
              /\ tpc' = [tpc EXCEPT ![t] = "locked"]
              /\ UNCHANGED <<next, job, dist, sum, phase, done, parts>>

\* the first neighbour from next on that has a chain, 0 if there is none
Pick == LET C == { v \in next..N : v \in Embedded }
        IN  IF C = {} THEN 0 ELSE CHOOSE v \in C : \A w \in C : v <= w

Take(t) == /\ tpc[t] = "locked"
           /\ job' = [job EXCEPT ![t] = Pick]
           /\ next' = IF Pick = 0 THEN N + 1 ELSE Pick + 1
           /\ lock' = 0
           /\ tpc' = [tpc EXCEPT ![t] = IF Pick = 0 THEN "ended" ELSE "search"]
           /\ UNCHANGED <<dist, sum, phase, done, parts>>

Search(t) == /\ tpc[t] = "search"
             /\ dist' = [dist EXCEPT ![job[t]] = [q \in 1..Q |-> D(job[t], q)]]
             /\ done' = [done EXCEPT ![job[t]] = @ + 1]
             /\ tpc' = [tpc EXCEPT ![t] = "wait"]
             /\ UNCHANGED <<next, lock, job, sum, phase, parts>>

\* the caller waits for all threads
Join == /\ phase = "search" /\ \A t \in 1..T : tpc[t] = "ended"
        /\ phase' = "sum"
        /\ UNCHANGED <<next, lock, tpc, job, dist, sum, done, parts>>

RECURSIVE Over(_, _)
Over(S, q) == IF S = {} THEN 0
              ELSE LET v == CHOOSE x \in S : TRUE IN dist[v][q] + Over(S \ {v}, q)

Accumulate(t) == /\ phase = "sum" /\ t \notin parts
                 /\ sum' = [q \in 1..Q |-> IF q \in Range(t) THEN sum[q] + Over(Embedded, q)
                                                             ELSE sum[q]]
                 /\ parts' = parts \cup {t}
                 /\ UNCHANGED <<next, lock, tpc, job, dist, phase, done>>
Finish == /\ phase = "sum" /\ parts = 1..T
          /\ phase' = "done"
          /\ UNCHANGED <<next, lock, tpc, job, dist, sum, done, parts>>

Next == \/ \E t \in 1..T : Acquire(t) \/ Take(t) \/ Search(t) \/ Accumulate(t)
        \/ Join \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exclusive == \A t \in 1..T : tpc[t] = "locked" => lock = t
OnceEach == \A v \in 1..N : done[v] <= (IF v \in Embedded THEN 1 ELSE 0)
AllSearched == phase # "search" => \A v \in Embedded : done[v] = 1
Partition == /\ UNION { Range(t) : t \in 1..T } = 1..Q
             /\ \A s, t \in 1..T : s # t => Range(s) \cap Range(t) = {}
RECURSIVE Serial(_, _)
Serial(S, q) == IF S = {} THEN 0
                ELSE LET v == CHOOSE x \in S : TRUE IN D(v, q) + Serial(S \ {v}, q)
SameAsSerial == phase = "done" => \A q \in 1..Q : sum[q] = Serial(Embedded, q)
Ends == <>(phase = "done")
==============================================================================
