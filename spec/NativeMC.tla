------------------------------ MODULE NativeMC ------------------------------
(* Native cliques and bicliques of defective lattices are what they are called: *)
(* for every way of arranging ells the chains are a clique embedding, for every *)
(* rectangle the tracks are a biclique embedding, and the tables of module      *)
(* Native give the best of all arrangements.                                    *)
EXTENDS Native
CONSTANTS Lattices, LostNodes, LostCouplers, Widest
VARIABLES lat, has, coup, lost

C(m, n, t) == [family |-> "chimera", m |-> m, n |-> n, t |-> t, off |-> <<>>]
Z(m, t) == [family |-> "zephyr", m |-> m, n |-> 0, t |-> t, off |-> <<>>]
P(m) == [family |-> "pegasus", m |-> m, n |-> 0, t |-> 0,
         off |-> << <<1, 1, 1, 1, 5, 5, 5, 5, 3, 3, 3, 3>>, <<3, 3, 3, 3, 1, 1, 1, 1, 5, 5, 5, 5>> >>]
Small == {C(2, 2, 1), C(2, 3, 1), C(1, 2, 2), C(2, 2, 2), Z(1, 1)}
Large == {C(3, 3, 1), C(3, 2, 2), C(3, 4, 1), Z(1, 2)}

QubitsOf(own) == UNION { UNION { UNION { { own[u][w][z][k] : k \in DOMAIN own[u][w][z] } : z \in DOMAIN own[u][w] }
                                 : w \in DOMAIN own[u] } : u \in 0..1 } \ {-1}

Init == \E l \in Lattices :
          LET own == Owners(l)
          IN  lat = l /\ has = QubitsOf(own) /\ coup = LatticeCouplers(l, own) /\ lost = <<0, 0>>
Next == /\ \/ /\ lost[1] < LostNodes
              /\ \E p \in has : /\ has' = has \ {p}
                                /\ coup' = { e \in coup : e[1] # p /\ e[2] # p }
              /\ lost' = <<lost[1] + 1, lost[2]>>
           \/ /\ lost[2] < LostCouplers
              /\ \E e \in coup : coup' = coup \ {e}
              /\ lost' = <<lost[1], lost[2] + 1>>
              /\ UNCHANGED has
        /\ UNCHANGED lat
Spec == Init /\ [][Next]_<<lat, has, coup, lost>>

\* the tracks that are intact from z0 to z1, as chains
Chains(own, gone, u, w, z0, z1) ==
    LET ok(k) == /\ \A z \in z0..z1 : own[u][w][z][k] \in has /\ <<u, w, z, k>> \notin gone
                 /\ \A z \in (z0 + 1)..z1 : \/ own[u][w][z - 1][k] = own[u][w][z][k]
                                            \/ Coupled(coup, own[u][w][z - 1][k], own[u][w][z][k])
    IN  { { own[u][w][z][k] : z \in z0..z1 } : k \in { k \in 0..(Shore(lat) - 1) : ok(k) } }

Neighbours == [p \in has |-> { q \in has : <<Min2(p, q), Max2(p, q)>> \in coup }]

\* pairs up as many of A and B as there can be
RECURSIVE Pair(_, _)
Pair(A, B) == IF A = {} \/ B = {} THEN {}
              ELSE LET a == CHOOSE x \in A : TRUE
                       b == CHOOSE x \in B : TRUE
                   IN  {a \cup b} \cup Pair(A \ {a}, B \ {b})

RECURSIVE Arrangements(_, _, _, _, _, _)
\* all sequences of ells <<y, x, y0, y1, x0, x1>> that go on from the rows y0..y1 (none: y1 < y0),
\* columns x0..x1
Arrangements(y0, y1, x0, x1, Y, acc) ==
    IF x0 > x1 THEN {acc}
    ELSE LET rows == (IF y0 > 0 THEN {<<y0 - 1, y0 - 1, y1>>} ELSE {})
                     \cup (IF y1 < Y - 1 THEN {<<y1 + 1, y0, y1 + 1>>} ELSE {})
         IN  UNION { Arrangements(r[2], r[3], x0 + 1, x1, Y, Append(acc, <<r[1], x0, r[2], r[3], x0, x1>>))
                     \cup Arrangements(r[2], r[3], x0, x1 - 1, Y, Append(acc, <<r[1], x1, r[2], r[3], x0, x1>>)) : r \in rows }

ToursOf(W) == UNION { Arrangements(y, y - 1, x, x + W - 1, Rows_(lat), <<>>) :
                         y \in 0..(Rows_(lat) - 1), x \in 0..(Cols_(lat) - W) }

\* the chains of a sequence of ells
TourChains(own, gone, a) ==
    UNION { Pair(Chains(own, gone, 0, e[2], e[3], e[4]), Chains(own, gone, 1, e[1], e[5], e[6])) : e \in ToSet(a) }

CliquesSound ==
    LET own == TLCEval(Owners(lat))
        adj == TLCEval(Neighbours)
        spans == Spans(lat, own)
        bad == BadCrossings(lat, own, has, coup)
        best(W) == { MaxOf({ Cardinality(TourChains(own, gone, a)) : a \in ToursOf(W) }) : gone \in Covers(bad) }
        table(W) == { NativeClique(lat, Counts(lat, own, has, coup, gone), spans, 0, W) : gone \in Covers(bad) }
    IN  \A W \in 1..Min2(Widest, Min2(Rows_(lat), Cols_(lat))) :
            /\ best(W) = table(W)
            /\ \A gone \in Covers(bad) : \A a \in ToursOf(W) :
                 LET cs == TourChains(own, gone, a) IN
                 \* a clique: as many chains as the ells can pair, disjoint, connected, coupled pairwise
                 /\ Cardinality(cs) = Sum([i \in DOMAIN a |->
                        Ell(Counts(lat, own, has, coup, gone), spans, 0, a[i][1], a[i][2], a[i][3], a[i][4], a[i][5], a[i][6])])
                 /\ \A c \in cs : Connected(adj, c) /\ Cardinality(c) <= LongestEll(lat, spans, W)
                 /\ \A c, d \in cs : c # d => c \cap d = {} /\ Touch(adj, c, d)

BicliquesSound ==
    LET own == TLCEval(Owners(lat))
        adj == TLCEval(Neighbours)
        spans == Spans(lat, own)
        bad == BadCrossings(lat, own, has, coup)
    IN  \A gone \in Covers(bad) :
          LET counts == Counts(lat, own, has, coup, gone)
              of(y0, y1, x0, x1) ==
                 LET V == UNION { Chains(own, gone, 0, x, y0, y1) : x \in x0..x1 }
                     H == UNION { Chains(own, gone, 1, y, x0, x1) : y \in y0..y1 }
                 IN  /\ \A c \in V, d \in H : Touch(adj, c, d)
                     /\ \A c, d \in V \cup H : c # d => c \cap d = {}
                     /\ \A c \in V \cup H : Connected(adj, c)
                     /\ (V # {} /\ H # {}) =>
                           \E r \in Rectangles(lat, counts, spans) :
                               r[1] = Cardinality(V) /\ r[2] = Cardinality(H)
                               /\ \A c \in V \cup H : Cardinality(c) <= r[3]
          IN  \A y0 \in 0..(Rows_(lat) - 1), x0 \in 0..(Cols_(lat) - 1) :
                \A y1 \in y0..(Rows_(lat) - 1), x1 \in x0..(Cols_(lat) - 1) : of(y0, y1, x0, x1)
=============================================================================
