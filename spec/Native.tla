------------------------------- MODULE Native -------------------------------
(* The lattices as busclique sees them, and the cliques and bicliques native   *)
(* to them.                                                                    *)
(*                                                                             *)
(* A lattice has X columns of vertical lines (u = 0) and Y rows of horizontal  *)
(* lines (u = 1), each of `shore' tracks. A qubit is a run of fragments of one *)
(* track; fragments of a row and a column that cross are coupled, and so are   *)
(* consecutive qubits of one track. Chimera has qubits of one fragment, Zephyr *)
(* of two, Pegasus of six.                                                     *)
(*                                                                             *)
(* A native biclique is a rectangle: the tracks that run intact through its    *)
(* columns on one side, those of its rows on the other. A native clique is a   *)
(* sequence of ells (a stretch of a column and a stretch of a row, meeting in  *)
(* their ends) such that every two of them cross: the rows grow one by one at  *)
(* either end while the columns dwindle one by one at either end.              *)
EXTENDS Graphs

\* L: family, m (and n, t; off: the offsets of Pegasus, halved)
Shore(L) == CASE L.family = "pegasus" -> 2 [] L.family = "zephyr" -> 2 * L.t [] OTHER -> L.t
Rows_(L) == CASE L.family = "pegasus" -> 6 * L.m [] L.family = "zephyr" -> 2 * L.m + 1 [] OTHER -> L.m
Cols_(L) == CASE L.family = "pegasus" -> 6 * L.m [] L.family = "zephyr" -> 2 * L.m + 1 [] OTHER -> L.n
\* the number of lines of orientation u, and the number of fragments in each
Lines(L, u) == IF u = 0 THEN Cols_(L) ELSE Rows_(L)
Length(L, u) == IF u = 0 THEN Rows_(L) ELSE Cols_(L)

\* the number (as dwave_networkx counts) of the qubit that has the fragment, or -1
Owner(L, u, w, z, k) ==
    CASE L.family = "chimera" ->
             LET y == IF u = 0 THEN z ELSE w
                 x == IF u = 0 THEN w ELSE z
             IN  ((y * L.n + x) * 2 + u) * L.t + k
      [] L.family = "pegasus" ->
             LET t == 2 * w + k
                 zz == z - L.off[u + 1][(t % 12) + 1]
             IN  IF zz < 0 \/ zz \div 6 > L.m - 2 THEN -1
                 ELSE ((u * L.m + (t \div 12)) * 12 + (t % 12)) * (L.m - 1) + (zz \div 6)
      [] L.family = "zephyr" ->
             LET zz == z - (k % 2)
             IN  IF zz < 0 \/ zz \div 2 > L.m - 1 THEN -1
                 ELSE ((u * (2 * L.m + 1) + w) * 2 * L.t + k) * L.m + (zz \div 2)

\* all owners, tabulated
Owners(L) ==
    TLCEval([u \in 0..1 |-> TLCEval([w \in 0..(Lines(L, u) - 1) |-> TLCEval([z \in 0..(Length(L, u) - 1) |->
        TLCEval([k \in 0..(Shore(L) - 1) |-> Owner(L, u, w, z, k)])])])])

\* ------------------------------------------------------- a graph on the lattice
\* has: the qubits there are; coup: the couplers, pairs <<p, q>> with p < q
Coupled(coup, p, q) == <<Min2(p, q), Max2(p, q)>> \in coup

\* crossings that lack their coupler, as pairs of fragments <<u, w, z, k>>
BadCrossings(L, own, has, coup) ==
    { <<<<0, x, y, k>>, <<1, y, x, l>>>> :
        <<y, x, k, l>> \in { c \in (0..(Rows_(L) - 1)) \X (0..(Cols_(L) - 1)) \X (0..(Shore(L) - 1)) \X (0..(Shore(L) - 1)) :
            LET p == own[0][c[2]][c[1]][c[3]]
                q == own[1][c[1]][c[2]][c[4]]
            IN  p \in has /\ q \in has /\ ~Coupled(coup, p, q) } }

\* sets of fragments that take one fragment of each bad crossing
Covers(bad) == { { IF b \in S THEN b[1] ELSE b[2] : b \in bad } : S \in SUBSET bad }

RECURSIVE RunsTo(_, _, _, _)
\* where the intact stretch of a track that ends in fragment z begins (z + 1: no fragment), for
\* all z; there, linked: which fragments there are, which are joined to their predecessor
RunsTo(n, there, linked, acc) ==
    LET z == Len(acc) IN
    IF z = n THEN acc
    ELSE RunsTo(n, there, linked,
                Append(acc, IF z \notin there THEN z + 1 ELSE IF z \notin linked THEN z ELSE acc[z]))

\* per line: for every stretch z0..z1 the number of tracks intact throughout
Counts(L, own, has, coup, gone) ==
    LET there(u, w, z, k) == own[u][w][z][k] \in has /\ <<u, w, z, k>> \notin gone
        linked(u, w, z, k) == LET p == own[u][w][z - 1][k]
                                  q == own[u][w][z][k]
                              IN  there(u, w, z - 1, k) /\ (p = q \/ Coupled(coup, p, q))
        runs == TLCEval([u \in 0..1 |-> TLCEval([w \in 0..(Lines(L, u) - 1) |-> TLCEval([k \in 0..(Shore(L) - 1) |->
                    RunsTo(Length(L, u), { z \in 0..(Length(L, u) - 1) : there(u, w, z, k) },
                           { z \in 1..(Length(L, u) - 1) : linked(u, w, z, k) }, <<>>)])])])
    IN  TLCEval([u \in 0..1 |-> TLCEval([w \in 0..(Lines(L, u) - 1) |->
            TLCEval([z0 \in 0..(Length(L, u) - 1) |-> TLCEval([z1 \in z0..(Length(L, u) - 1) |->
                Cardinality({ k \in 0..(Shore(L) - 1) : runs[u][w][k][z1 + 1] <= z0 })])])])])

\* how many qubits the stretch takes on the perfect lattice, if it is there
Span(own, u, w, z0, z1, k) ==
    IF own[u][w][z0][k] = -1 \/ own[u][w][z1][k] = -1 THEN 0
    ELSE Cardinality({ own[u][w][z][k] : z \in z0..z1 })

Spans(L, own) ==
    TLCEval([u \in 0..1 |-> TLCEval([w \in 0..(Lines(L, u) - 1) |->
        TLCEval([z0 \in 0..(Length(L, u) - 1) |-> TLCEval([z1 \in z0..(Length(L, u) - 1) |->
            MaxOf({ Span(own, u, w, z0, z1, k) : k \in 0..(Shore(L) - 1) })])])])])

\* the most qubits that a stretch of n fragments can take
Longest(L, spans, n) ==
    MaxOf({0} \cup UNION { { spans[u][w][z][z + n - 1] : w \in 0..(Lines(L, u) - 1), z \in 0..(Length(L, u) - n) } : u \in 0..1 })

\* -------------------------------------------------------------- native bicliques
RECURSIVE SumFun(_, _, _)
SumFun(f, a, b) == IF a > b THEN 0 ELSE f[b] + SumFun(f, a, b - 1)

\* <<vertical tracks, horizontal tracks, the longest chain>> of every rectangle
Rectangles(L, counts, spans) ==
    { r \in { <<SumFun(TLCEval([x \in xs[1]..xs[2] |-> counts[0][x][ys[1]][ys[2]]]), xs[1], xs[2]),
                SumFun(TLCEval([y \in ys[1]..ys[2] |-> counts[1][y][xs[1]][xs[2]]]), ys[1], ys[2]),
                MaxOf({ spans[0][x][ys[1]][ys[2]] : x \in xs[1]..xs[2] }
                      \cup { spans[1][y][xs[1]][xs[2]] : y \in ys[1]..ys[2] })>> :
              ys \in { p \in (0..(Rows_(L) - 1)) \X (0..(Rows_(L) - 1)) : p[1] <= p[2] },
              xs \in { p \in (0..(Cols_(L) - 1)) \X (0..(Cols_(L) - 1)) : p[1] <= p[2] } } :
      r[1] > 0 /\ r[2] > 0 }

\* the lengths with which a rectangle offers the biclique of a and b
Offers(rects, a, b) == { r[3] : r \in { s \in rects : \/ (s[1] >= a /\ s[2] >= b)
                                                       \/ (s[1] >= b /\ s[2] >= a) } }

\* ---------------------------------------------------------------- native cliques
\* the number of chains of the ell of column x, rows y0..y1, and row y, columns x0..x1,
\* unless its chains are longer than cap (0: no cap)
Ell(counts, spans, cap, y, x, y0, y1, x0, x1) ==
    IF cap > 0 /\ spans[0][x][y0][y1] + spans[1][y][x0][x1] > cap THEN 0
    ELSE Min2(counts[0][x][y0][y1], counts[1][y][x0][x1])

RECURSIVE Grow(_, _, _, _, _, _, _)
\* best[y][x]: the most chains of h ells, of the rows y..y+h-1, which leave the columns x..x+W-h-1
Grow(L, counts, spans, cap, W, h, best) ==
    IF h = W
    THEN MaxOf({0} \cup UNION { { best[y][x] : x \in DOMAIN best[y] } : y \in DOMAIN best })
    ELSE LET g == h + 1
             \* the ell in column xr (it leaves) or xr + W - g of the columns xr..xr+W-g
             at(y, x, west, north) ==
                 LET xr == IF west THEN x - 1 ELSE x
                     xe == xr + W - g
                 IN  IF xr < 0 \/ xe >= Cols_(L) THEN 0
                     ELSE best[IF north THEN y + 1 ELSE y][xr]
                          + Ell(counts, spans, cap, IF north THEN y ELSE y + h, IF west THEN xr ELSE xe, y, y + h, xr, xe)
             next == TLCEval([y \in 0..(Rows_(L) - g) |-> TLCEval([x \in 0..(Cols_(L) - (W - g)) |->
                         Max2(Max2(at(y, x, TRUE, TRUE), at(y, x, TRUE, FALSE)),
                              Max2(at(y, x, FALSE, TRUE), at(y, x, FALSE, FALSE)))])])
         IN  Grow(L, counts, spans, cap, W, g, next)

\* the size of the largest native clique of W ells
NativeClique(L, counts, spans, cap, W) ==
    IF W > Rows_(L) \/ W > Cols_(L) THEN 0
    ELSE Grow(L, counts, spans, cap, W, 0,
              [y \in 0..Rows_(L) |-> [x \in 0..(Cols_(L) - W) |-> 0]])

\* the longest chain that a native clique of W ells can have
LongestEll(L, spans, W) ==
    MaxOf({ Longest(L, spans, i) + Longest(L, spans, W + 1 - i) : i \in 1..W })

\* the size of the largest native clique with chains of at most len qubits: in Pegasus the
\* ells of any width that are short enough; elsewhere those widths that have short ells only
Promise(L, counts, spans, len) ==
    LET all == (IF L.family = "pegasus" THEN 2 ELSE 1)..Min2(Rows_(L), Cols_(L))
        fit == IF L.family = "pegasus" THEN all ELSE { W \in all : LongestEll(L, spans, W) <= len }
        cap == IF L.family = "pegasus" THEN len ELSE 0
    IN  MaxOf({0} \cup { NativeClique(L, counts, spans, cap, W) : W \in fit })

\* ------------------------------------------------------------ the couplers of a lattice
\* all couplers but the odd ones, which native embeddings do not use
LatticeCouplers(L, own) ==
    LET pair(p, q) == <<Min2(p, q), Max2(p, q)>>
        K == 0..(Shore(L) - 1)
        across == { pair(own[0][c[2]][c[1]][c[3]], own[1][c[1]][c[2]][c[4]]) :
                      c \in { d \in (0..(Rows_(L) - 1)) \X (0..(Cols_(L) - 1)) \X K \X K :
                                own[0][d[2]][d[1]][d[3]] >= 0 /\ own[1][d[1]][d[2]][d[4]] >= 0 } }
        along == UNION { { pair(own[u][c[1]][c[2] - 1][c[3]], own[u][c[1]][c[2]][c[3]]) :
                             c \in { d \in (0..(Lines(L, u) - 1)) \X (1..(Length(L, u) - 1)) \X K :
                                       LET p == own[u][d[1]][d[2] - 1][d[3]]
                                           q == own[u][d[1]][d[2]][d[3]]
                                       IN  p >= 0 /\ q >= 0 /\ p # q } } : u \in 0..1 }
    IN  across \cup along
=============================================================================
