------------------------------ MODULE FileCache ------------------------------
(* The file cache of busclique: processes that fetch and store, crash anywhere *)
(* and are replaced, and a directory of cache files (each holding the entries  *)
(* of all keys that share its name), temporary files, a list of the most       *)
(* recently used files and a lock.                                             *)
(*   start -> lock -> read -> temp (if there is something to write) -> lru     *)
(*   -> evict -> lrutemp -> move -> movelru -> unlock -> done                  *)
(* Only `move` and `movelru` touch files that others read, and they replace    *)
(* them in one step.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Keys, Files, FileOf, Size, MaxCrash, MaxOps, Values

VARIABLES files,   \* file -> absent or function from some keys to values
          torn,    \* temporary files that were begun and not finished
          lru,     \* sequence of files
          lock,    \* process or none
          pc, op, mem, rlru, \* of each process: program counter, operation, file and list it has read
          crashes, ops,
          truth,   \* key -> value that a fetch has to yield (ghost)
          reply    \* of each process: value that was fetched, with the truth at the time
vars == <<files, torn, lru, lock, pc, op, mem, rlru, crashes, ops, truth, reply>>

Empty == [k \in {} |-> 0]
Absent == Empty       \* files are never empty
NoOne == "no one"
Native(k) == 0
Has(f, k) == k \in DOMAIN f

Init ==
    /\ files = [f \in Files |-> Absent]
    /\ torn = {} /\ lru = <<>> /\ lock = NoOne
    /\ pc = [p \in Procs |-> "idle"] /\ op = [p \in Procs |-> <<"none">>]
    /\ mem = [p \in Procs |-> Empty] /\ rlru = [p \in Procs |-> <<>>]
    /\ crashes = 0 /\ ops = 0
    /\ truth = [k \in Keys |-> Native(k)]
    /\ reply = [p \in Procs |-> <<0, 0>>]

Ops == { <<"fetch", k>> : k \in Keys } \cup { <<"store", k, v>> : k \in Keys, v \in Values }
K(p) == op[p][2]
F(p) == FileOf[K(p)]

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]

Begin(p) == /\ pc[p] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
            /\ \E o \in Ops : op' = [op EXCEPT ![p] = o]
            /\ Goto(p, "lock")
            /\ UNCHANGED <<files, torn, lru, lock, mem, rlru, crashes, truth, reply>>

Acquire(p) == /\ pc[p] = "lock" /\ lock = NoOne /\ lock' = p /\ Goto(p, "read")
              /\ UNCHANGED <<files, torn, lru, op, mem, rlru, crashes, ops, truth, reply>>

\* the content of the file to be: what is in it, and the entry that was missing or is stored
Read(p) ==
    /\ pc[p] = "read"
    /\ LET c == IF files[F(p)] = Absent THEN Empty ELSE files[F(p)]
           v == IF op[p][1] = "store" THEN op[p][3] ELSE IF Has(c, K(p)) THEN c[K(p)] ELSE Native(K(p))
       IN  /\ mem' = [mem EXCEPT ![p] = (K(p) :> v) @@ c]
           /\ reply' = [reply EXCEPT ![p] = IF op[p][1] = "store" THEN @ ELSE <<v, truth[K(p)]>>]
           /\ Goto(p, IF op[p][1] = "store" \/ ~Has(c, K(p)) THEN "temp" ELSE "lru")
    /\ UNCHANGED <<files, torn, lru, lock, op, rlru, crashes, ops, truth>>

Temp(p) == /\ pc[p] = "temp" /\ torn' = torn \cup {F(p)} /\ Goto(p, "lru-write")
           /\ UNCHANGED <<files, lru, lock, op, mem, rlru, crashes, ops, truth, reply>>

RECURSIVE Without(_, _)
Without(s, x) == IF s = <<>> THEN <<>> ELSE (IF s[1] = x THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), x)

ReadLru(p) == /\ pc[p] \in {"lru", "lru-write"}
              /\ rlru' = [rlru EXCEPT ![p] = <<F(p)>> \o Without(lru, F(p))]
              /\ Goto(p, IF pc[p] = "lru" THEN "evict" ELSE "evict-write")
              /\ UNCHANGED <<files, torn, lru, lock, op, mem, crashes, ops, truth, reply>>

\* one file at a time; its entries are back to what would be computed
Evict(p) ==
    /\ pc[p] \in {"evict", "evict-write"} /\ Len(rlru[p]) > Size
    /\ LET f == rlru[p][Len(rlru[p])] IN
       /\ files' = [files EXCEPT ![f] = Absent]
       /\ truth' = [k \in Keys |-> IF FileOf[k] = f THEN Native(k) ELSE truth[k]]
       /\ rlru' = [rlru EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<torn, lru, lock, pc, op, mem, crashes, ops, reply>>

Evicted(p) == /\ pc[p] \in {"evict", "evict-write"} /\ Len(rlru[p]) <= Size
              /\ Goto(p, IF pc[p] = "evict" THEN "movelru" ELSE "move")
              /\ UNCHANGED <<files, torn, lru, lock, op, mem, rlru, crashes, ops, truth, reply>>

Move(p) == /\ pc[p] = "move" /\ files' = [files EXCEPT ![F(p)] = mem[p]]
           /\ torn' = torn \ {F(p)}
           /\ truth' = [truth EXCEPT ![K(p)] = mem[p][K(p)]]
           /\ Goto(p, "movelru")
           /\ UNCHANGED <<lru, lock, op, mem, rlru, crashes, ops, reply>>

MoveLru(p) == /\ pc[p] = "movelru" /\ lru' = rlru[p] /\ Goto(p, "unlock")
              /\ UNCHANGED <<files, torn, lock, op, mem, rlru, crashes, ops, truth, reply>>

Release(p) == /\ pc[p] = "unlock" /\ lock' = NoOne /\ Goto(p, "idle")
              /\ op' = [op EXCEPT ![p] = <<"none">>] /\ mem' = [mem EXCEPT ![p] = Empty]
              /\ rlru' = [rlru EXCEPT ![p] = <<>>] /\ reply' = [reply EXCEPT ![p] = <<0, 0>>]
              /\ UNCHANGED <<files, torn, lru, crashes, ops, truth>>

\* the system releases the lock of a process that dies
Crash(p) == /\ pc[p] \notin {"idle"} /\ crashes < MaxCrash /\ crashes' = crashes + 1
            /\ lock' = IF lock = p THEN NoOne ELSE lock
            /\ Goto(p, "idle") /\ op' = [op EXCEPT ![p] = <<"none">>]
            /\ mem' = [mem EXCEPT ![p] = Empty] /\ rlru' = [rlru EXCEPT ![p] = <<>>]
            /\ reply' = [reply EXCEPT ![p] = <<0, 0>>]
            /\ UNCHANGED <<files, torn, lru, ops, truth>>

Step(p) == Begin(p) \/ Acquire(p) \/ Read(p) \/ Temp(p) \/ ReadLru(p) \/ Evict(p) \/ Evicted(p) \/ Move(p)
           \/ MoveLru(p) \/ Release(p)
Next == \E p \in Procs : Step(p) \/ Crash(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p)) /\ SF_vars(Acquire(p))

\* ------------------------------------------------------------ properties
\* what is fetched is what was stored last, or computed
Faithful == \A p \in Procs : reply[p][1] = reply[p][2]
\* the directory holds the truth
Durable == \A k \in Keys : IF Has(files[FileOf[k]], k) THEN files[FileOf[k]][k] = truth[k] ELSE truth[k] = Native(k)
\* entries are under their own name
Homed == \A f \in Files : \A k \in DOMAIN files[f] : FileOf[k] = f
Present == { f \in Files : files[f] # Absent }
Listed == { lru[i] : i \in DOMAIN lru }
\* no more files than allowed, but one for each crash
Bounded == lock = NoOne => Cardinality(Present) <= Size + crashes /\ Len(lru) <= Size
Recent == Cardinality(Listed) = Len(lru)
\* whoever asks is answered
Answered == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")
=============================================================================
