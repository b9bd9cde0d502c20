----------------------------- MODULE CliqueCache -----------------------------
(* The clique cache of busclique as an abstract data type.                     *)
(*   embedding  a sequence of chains, shortest first unless it is native       *)
(*   cache      [size   : clique size -> embedding of at least as many chains,*)
(*               length : chain length -> embedding with no longer chains]     *)
(* The first n chains of size[n] are the answer to a request for n.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CC_Max(S) == CHOOSE x \in S : \A y \in S : y <= x
CC_Union(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]

Take(e, n) == SubSeq(e, 1, IF n < Len(e) THEN n ELSE Len(e))
Longest(e) == IF e = <<>> THEN 0 ELSE CC_Max({ Len(e[k]) : k \in DOMAIN e })

RECURSIVE Insort(_, _)
Insort(c, s) == IF s = <<>> THEN <<c>>
                ELSE IF Len(s[1]) <= Len(c) THEN <<s[1]>> \o Insort(c, Tail(s)) ELSE <<c>> \o s
RECURSIVE Sorted(_)     \* by length, stable
Sorted(e) == IF e = <<>> THEN <<>> ELSE Insort(e[Len(e)], Sorted(SubSeq(e, 1, Len(e) - 1)))

Blank == [size |-> (0 :> <<>>), length |-> (0 :> <<>>)]

\* list[l+1] is the embedding with chains of at most l
FromList(list) ==
    LET top == CC_Max({ Len(list[k]) : k \in DOMAIN list })
        first(n) == CHOOSE k \in DOMAIN list : Len(list[k]) >= n /\ \A j \in 1..(k-1) : Len(list[j]) < n
    IN  [size   |-> [n \in 0..top |-> list[first(n)]],
         length |-> [l \in 0..(Len(list) - 1) |-> list[l + 1]]]

Upto(e, l) == SelectSeq(e, LAMBDA c : Len(c) <= l)
FromEmbedding(e) == LET s == Sorted(e) IN FromList([k \in 1..(Longest(e) + 1) |-> Upto(s, k - 1)])

\* what is in c, with everything of `other` that is better by the quality Q(_)
Merge(c, other, Q(_)) ==
    LET both == DOMAIN c.size \cap DOMAIN other.size
        wins(n) == n > 0 /\ Q(Take(other.size[n], n)) > Q(Take(c.size[n], n))
        sizes == [n \in DOMAIN c.size \cup DOMAIN other.size |->
                    IF n \in both THEN IF wins(n) THEN other.size[n] ELSE c.size[n]
                    ELSE IF n \in DOMAIN c.size THEN c.size[n] ELSE other.size[n]]
        lens == [l \in DOMAIN c.length \cup DOMAIN other.length |->
                    IF l \in DOMAIN c.length \cap DOMAIN other.length
                    THEN IF Len(other.length[l]) > Len(c.length[l]) THEN other.length[l] ELSE c.length[l]
                    ELSE IF l \in DOMAIN c.length THEN c.length[l] ELSE other.length[l]]
    IN  [size |-> sizes, length |-> lens]

Direct(c, e) ==
    LET s == Sorted(e)  l == Longest(e)
    IN  [size   |-> CC_Union(c.size, Len(s) :> s),
         length |-> IF l \notin DOMAIN c.length \/ Len(c.length[l]) < Len(s)
                    THEN CC_Union(c.length, l :> s) ELSE c.length]

RECURSIVE DirectAll(_, _)
DirectAll(c, es) == IF es = <<>> THEN c ELSE DirectAll(Direct(c, es[1]), Tail(es))

\* ------------------------------------------------------------ questions
Answer(c, n) == IF n \in DOMAIN c.size THEN Take(c.size[n], n) ELSE <<>>
Largest(c) == IF DOMAIN c.size = {} THEN <<>> ELSE c.size[CC_Max(DOMAIN c.size)]
\* how many chains of at most l
Count(c, l) == LET S == { Len(c.length[k]) : k \in { j \in DOMAIN c.length : 0 < j /\ j <= l } }
               IN IF S = {} THEN 0 ELSE CC_Max(S)
Holds(c) == { c.size[n] : n \in DOMAIN c.size } \cup { c.length[l] : l \in DOMAIN c.length }

\* ------------------------------------------------------------ what a cache is
CacheOK(c) ==
    /\ \A n \in DOMAIN c.size : Len(c.size[n]) >= n
    /\ DOMAIN c.size # {} => Len(Largest(c)) = CC_Max(DOMAIN c.size)
    /\ \A l \in DOMAIN c.length : Longest(c.length[l]) <= l
=============================================================================
