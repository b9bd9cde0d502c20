---------------------------- MODULE CliqueCacheMC ----------------------------
(* All histories of inserting, updating and merging, over embeddings of a few  *)
(* chains: the laws of CliqueCache.                                            *)
EXTENDS CliqueCache
CONSTANTS MaxLen, MaxChains, Depth

VARIABLES one, two, d
vars == <<one, two, d>>

Chain(l, tag) == [j \in 1..l |-> tag]
Embs == UNION { { [k \in 1..n |-> Chain(f[k], t)] : f \in [1..n -> 1..MaxLen], t \in {1, 2} } : n \in 0..MaxChains }
Shortest(e) == -Longest(e)
Fewest(e) == LET S[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE S[k-1] + Len(e[k]) IN -S[Len(e)]
Tagged(e) == IF e # <<>> /\ e[1][1] = 2 THEN 1 ELSE 0
Q(w, e) == CASE w = "shortest" -> Shortest(e) [] w = "fewest" -> Fewest(e) [] OTHER -> Tagged(e)
Qs == {"shortest", "fewest", "tagged"}

Init == one = Blank /\ two = Blank /\ d = 0
Insert(e, w) == one' = Merge(one, FromEmbedding(e), LAMBDA x : Q(w, x)) /\ UNCHANGED two
Store(e) == one' = Direct(one, e) /\ UNCHANGED two
Join(w) == one' = Merge(one, two, LAMBDA x : Q(w, x)) /\ UNCHANGED two
Swap == one' = two /\ two' = one
Next == d < Depth /\ d' = d + 1 /\
        (\/ \E e \in Embs, w \in Qs : Insert(e, w)
         \/ \E e \in Embs : Store(e)
         \/ \E w \in Qs : Join(w)
         \/ Swap)
Spec == Init /\ [][Next]_vars

Sound == CacheOK(one) /\ CacheOK(two)
\* merging is idempotent, and neither loses a size nor makes one worse
Better(c, b, w) ==
    /\ DOMAIN b.size \subseteq DOMAIN c.size
    /\ \A n \in DOMAIN b.size \ {0} : Q(w, Answer(c, n)) >= Q(w, Answer(b, n))
    /\ \A l \in DOMAIN b.length : l \in DOMAIN c.length /\ Len(c.length[l]) >= Len(b.length[l])
Laws == \A w \in Qs :
    LET m == Merge(one, two, LAMBDA x : Q(w, x)) IN
    /\ CacheOK(m)
    /\ Better(m, one, w) /\ Better(m, two, w)
    /\ Merge(m, two, LAMBDA x : Q(w, x)) = m
    /\ Merge(m, one, LAMBDA x : Q(w, x)) = m
    /\ Merge(one, one, LAMBDA x : Q(w, x)) = one
    /\ Holds(m) \subseteq Holds(one) \cup Holds(two)
\* an inserted embedding is offered in all its sizes
Offered == [][\A e \in Embs : (one' = Merge(one, FromEmbedding(e), LAMBDA x : Q("shortest", x)))
                 => \A n \in 0..Len(e) : n \in DOMAIN one'.size
                      /\ (n > 0 => Longest(Answer(one', n)) <= Longest(Take(Sorted(e), n)))]_vars
=============================================================================
