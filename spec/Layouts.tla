------------------------------ MODULE Layouts ------------------------------
(* Layouts of graphs: each node at a point of Z^d (the unit is the caller's).   *)
(* A layout is a function from nodes to sequences of d integers.  Twice the     *)
(* center and twice the scale are integers whatever the points.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Min(S) == CHOOSE m \in S : \A x \in S : m <= x

Dim(L) == IF DOMAIN L = {} THEN 0 ELSE Len(L[CHOOSE v \in DOMAIN L : TRUE])
Lo(L, j) == Min({ L[v][j] : v \in DOMAIN L })
Hi(L, j) == Max({ L[v][j] : v \in DOMAIN L })
\* twice the center of the bounding box, and twice the scale: its longest side
Center2(L) == [j \in 1..Dim(L) |-> Lo(L, j) + Hi(L, j)]
Scale2(L) == IF Dim(L) = 0 THEN 0 ELSE Max({ Hi(L, j) - Lo(L, j) : j \in 1..Dim(L) })

\* ---------------------------------------------------------------- operations
\* where the result is not a point of Z^d, there is no such step (CanMove, CanScale)
CanMove(L, c2) == /\ Len(c2) = Dim(L)
                  /\ \A j \in DOMAIN c2 : (c2[j] - Center2(L)[j]) % 2 = 0
Move(L, c2) == LET d == [j \in DOMAIN c2 |-> (c2[j] - Center2(L)[j]) \div 2]
               IN [v \in DOMAIN L |-> [j \in DOMAIN c2 |-> L[v][j] + d[j]]]

\* 2 * (new point) = center2 + (2 * point - center2) * s2 / scale2
CanScale(L, s2) == /\ Scale2(L) > 0
                   /\ \A v \in DOMAIN L, j \in 1..Dim(L) :
                        LET n == (2 * L[v][j] - Center2(L)[j]) * s2
                        IN /\ n % Scale2(L) = 0
                           /\ (Center2(L)[j] + n \div Scale2(L)) % 2 = 0
Scaled(L, s2) == [v \in DOMAIN L |-> [j \in 1..Dim(L) |->
                    (Center2(L)[j] + ((2 * L[v][j] - Center2(L)[j]) * s2) \div Scale2(L)) \div 2]]

CanExtend(L, d) == d >= Dim(L)
Extend(L, d) == [v \in DOMAIN L |-> [j \in 1..d |-> IF j <= Dim(L) THEN L[v][j] ELSE 0]]

Put(L, v, p) == [L EXCEPT ![v] = p]

\* ---------------------------------------------------------------- shapes
\* L is M moved and scaled (and padded): differences are in proportion
Similar(L, M) ==
    /\ DOMAIN L = DOMAIN M
    /\ \A u, v \in DOMAIN L : \A j \in 1..Dim(L) :
          (L[u][j] - L[v][j]) * Scale2(M) =
              (IF j <= Dim(M) THEN M[u][j] - M[v][j] ELSE 0) * Scale2(L)
=============================================================================
