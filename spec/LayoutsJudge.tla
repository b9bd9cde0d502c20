---------------------------- MODULE LayoutsJudge ----------------------------
(* Layouts and placements of the real code, judged against Layouts.             *)
(*   history   a layout object under a history of operations                    *)
(*   graph     the layout of a Chimera, Pegasus or Zephyr graph                 *)
(*   pnorm     a layout by the p-norm: its distortion is that of an optimum      *)
(*   pack      components side by side                                          *)
(*   closest   the placement on the closest connected subsets of the target     *)
(*   cross     the placement on the qubits that cross at the closest grid point *)
(*   place     layout.find_embedding                                            *)
(* Points are integers in units of 1/100 (pnorm: 1/1000); Tol is for rounding.  *)
EXTENDS Layouts, Json, IOUtils, SequencesExt

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i
If(b, f) == IF b THEN {f} ELSE {}
Tol == 3
Near(a, b) == Abs(a - b) <= Tol

\* ------------------------------------------------------------ history
AsLay(pts) == [v \in DOMAIN pts |-> pts[v]]
SimilarNear(L, M) ==
    LET sL == Scale2(L)
        sM == Scale2(M) IN
    \A v \in DOMAIN L, j \in 1..Dim(L) :
       v > 1 => Abs((L[v][j] - L[1][j]) * sM - (IF j <= Dim(M) THEN M[v][j] - M[1][j] ELSE 0) * sL)
                    <= 2 * Tol * (sL + sM + Tol)
SamePts(L, M) == DOMAIN L = DOMAIN M /\ \A v \in DOMAIN L : Len(L[v]) = Len(M[v]) /\ \A j \in DOMAIN L[v] : Near(L[v][j], M[v][j])
NearSeq(s, t) == Len(s) = Len(t) /\ \A j \in DOMAIN s : Near(s[j], t[j])

\* a recorded state [pts, arr, c2, s2, dim] tells of its own points
StateFaults(x) ==
         If(~SamePts(x.pts, x.arr), "lockstep")
    \cup If(Len(x.pts) > 0 /\ x.dim # Len(x.pts[1]), "dim")
    \cup If(Len(x.pts) > 0 /\ ~NearSeq(x.c2, Center2(AsLay(x.pts))), "center")
    \cup If(Len(x.pts) > 0 /\ ~Near(x.s2, Scale2(AsLay(x.pts))), "scale")

Padded(c2, d) == [j \in 1..d |-> IF j <= Len(c2) THEN c2[j] ELSE 0]

\* the layout as it was asked for: dim 0, center <<>> and scale 0 where nothing was asked
StartFaults(x) ==
    LET s == x.steps[1].state
        L == AsLay(s.pts)
        B == AsLay(x.base)
        asked == x.asked IN
    IF Len(s.pts) = 0 THEN {}
    ELSE StateFaults(s)
         \cup If(asked.dim > 0 /\ s.dim # asked.dim, "asked-dim")
         \cup If(asked.center # <<>> /\ ~NearSeq(s.c2, asked.center), "asked-center")
         \cup If(asked.scale > 0 /\ s.s2 > 0 /\ ~Near(s.s2, asked.scale), "asked-scale")
         \* a layout that is given keeps its shape, and what was not asked to change
         \cup (IF Len(x.base) = 0 THEN {}
               ELSE If(~SimilarNear(L, B), "shape")
                    \cup If(asked.dim = 0 /\ s.dim # Dim(B), "base-dim")
                    \cup If(asked.center = <<>> /\ ~NearSeq(s.c2, Padded(Center2(B), s.dim)), "base-center")
                    \cup If((asked.scale = 0 \/ Scale2(B) = 0) /\ ~Near(s.s2, Scale2(B)), "base-scale"))

StepFaults(p, s, op) ==
    LET L == AsLay(s.pts)
        P == AsLay(p.pts) IN
    IF Len(s.pts) = 0 THEN {}
    ELSE StateFaults(s)
      \cup CASE op[1] = "center" -> If(~NearSeq(s.c2, op[2]), "set-center") \cup If(~SimilarNear(L, P), "shape")
                                    \cup If(~Near(s.s2, p.s2) \/ s.dim # p.dim, "disturbed")
             [] op[1] = "scale" -> If(p.s2 > 0 /\ ~Near(s.s2, op[2]), "set-scale") \cup If(~SimilarNear(L, P), "shape")
                                   \cup If(~NearSeq(s.c2, p.c2) \/ s.dim # p.dim, "disturbed")
             [] op[1] = "dim" -> If(s.dim # op[2], "set-dim")
                                 \cup If(~SamePts(L, Extend(P, op[2])), "shape")
             [] op[1] = "node" -> If(~SamePts(L, Put(P, op[2], op[3])), "set-node")
             [] op[1] = "array" -> If(~SamePts(L, AsLay(op[2])), "set-array")
             [] op[1] = "layout" -> If(~SamePts(L, AsLay(op[2])), "set-layout")
             \* a dimension that is too small is refused, and nothing happens
             [] op[1] = "refused" -> If(~op[2], "not-refused") \cup If(~SamePts(L, P), "disturbed")

HistoryFaults(x) ==
    StartFaults(x)
    \cup UNION { StepFaults(x.steps[k - 1].state, x.steps[k].state, x.steps[k].op) : k \in 2..Len(x.steps) }
    \cup If(~x.unmodified, "modified")

\* ------------------------------------------------------------ graph
\* the first two dimensions span [center - scale, center + scale], the others do not vary
GraphFaults(x) ==
    LET L == AsLay(x.pts)
        span(j) == Hi(L, j) - Lo(L, j) IN
         If(Dim(L) # x.dim, "dim")
    \cup If(\E j \in 1..x.dim : ~Near(Center2(L)[j], x.c2[j]), "center")
    \cup If(\E j \in 1..x.dim : ~Near(span(j), IF j <= 2 THEN x.s2 ELSE 0) /\ ~(span(j) = 0 /\ x.flat[j]), "scale")
    \cup If(\E p, q \in DOMAIN L : p < q /\ SamePts([v \in {1} |-> L[p]], [v \in {1} |-> L[q]]) /\ x.s2 > 60 * Len(x.pts), "on-top")

\* ------------------------------------------------------------ pnorm
Far == 1000000
RECURSIVE Grow(_, _, _, _, _)
Grow(dist, frontier, k, adj, n) ==
    IF frontier = {} THEN dist
    ELSE LET d2 == TLCEval([v \in 1..n |-> IF v \in frontier THEN k ELSE dist[v]])
             f2 == { w \in UNION { adj[v] : v \in frontier } : d2[w] = Far }
         IN Grow(d2, f2, k + 1, adj, n)
Distances(adj, n) == TLCEval([u \in 1..n |-> Grow([v \in 1..n |-> Far], {u}, 0, adj, n)])

PNormFaults(x) ==
    LET n == x.n
        adj == TLCEval([v \in 1..n |-> ToSet(x.adj[v])])
        bfs == Distances(adj, n)
        \* components are as far apart as the graph is large
        want == TLCEval([u \in 1..n |-> [v \in 1..n |-> 1000 * (IF x.given # <<>> THEN x.given[u][v]
                                                              ELSE IF bfs[u][v] = Far THEN n ELSE bfs[u][v])]])
        sum(f, S) == LET RECURSIVE go(_)
                         go(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN f[t] + go(T \ {t}) IN go(S)
        J == 1..Len(x.out[1])
        pd(pts, D, u, v) ==
            IF x.p = 1 THEN sum([j \in J |-> Abs(pts[u][j] - pts[v][j])], J)
            ELSE IF x.p = 0 THEN Max({ Abs(pts[u][j] - pts[v][j]) : j \in J })
            ELSE D[u][v]
        Pairs == { uv \in (1..n) \X (1..n) : uv[1] < uv[2] }
        stress(pts, D) == sum([uv \in Pairs |-> LET e == pd(pts, D, uv[1], uv[2]) - want[uv[1]][uv[2]]
                                              IN (e * e) \div 1000], Pairs)
        \* the distances that came along are those of the points
        honest(pts, D) == x.p # 2 \/ \A uv \in Pairs :
                             LET d == D[uv[1]][uv[2]]
                                 q == sum([j \in J |-> (pts[uv[1]][j] - pts[uv[2]][j]) * (pts[uv[1]][j] - pts[uv[2]][j])], J)
                             IN Abs(d * d - q) <= 8 * (d + 8)
        grad(v, j) == sum([u \in 1..n |-> IF u = v THEN 0 ELSE
                             LET d == x.outd[u][v] IN ((d - want[u][v]) * (x.out[v][j] - x.out[u][j])) \div d], 1..n)
        smooth == \A uv \in Pairs : x.p # 2 \/ x.outd[uv[1]][uv[2]] > 100
    IN  If(~honest(x.out, x.outd) \/ (x.start # <<>> /\ ~honest(x.start, x.startd)), "witness")
        \cup If(x.start # <<>> /\ stress(x.out, x.outd) > stress(x.start, x.startd) + 50 + 10 * n * n, "worse")
        \* at an optimum, the forces on each node cancel
        \cup If(x.p = 2 /\ smooth /\ \E v \in 1..n, j \in J : Abs(grad(v, j)) > x.slack, "forces")
        \cup If(\E j \in J : ~Near(Center2(AsLay(x.out))[j], x.c2[j]), "center")

\* ------------------------------------------------------------ pack
PackFaults(x) ==
    LET C == DOMAIN x.comps
        box(k, j) == LET S == { x.pts[v][j] : v \in ToSet(x.comps[k]) } IN <<Min(S), Max(S)>>
        B == TLCEval([k \in C |-> <<box(k, 1), box(k, 2)>>])
        apart(k, l) == \E j \in 1..2 : B[k][j][2] <= B[l][j][1] + 2 \/ B[l][j][2] <= B[k][j][1] + 2
    IN  If(\E k, l \in C : k < l /\ ~apart(k, l), "overlapping")
        \cup If(x.scale > 0 /\ Len(x.pts) > 1 /\ ~Near(Scale2(AsLay(x.pts)), x.scale), "scale")

\* ------------------------------------------------------------ closest
RECURSIVE Subsets(_, _, _)
\* connected subsets of size k, as grown from smaller ones
Subsets(adj, k, nt) == IF k = 1 THEN { {q} : q \in 1..nt }
                       ELSE LET S == TLCEval(Subsets(adj, k - 1, nt))
                            IN UNION { { X \cup {q} : q \in (UNION { adj[p] : p \in X }) \ X } : X \in S }

ClosestFaults(x) ==
    LET nt == Len(x.tpts)
        adj == TLCEval([q \in 1..nt |-> ToSet(x.tadj[q])])
        cand == TLCEval(UNION { Subsets(adj, k, nt) : k \in x.lo..x.hi })
        sumof(X, j) == LET RECURSIVE go(_)
                           go(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN x.tpts[t][j] + go(T \ {t})
                       IN go(X)
        mid == TLCEval([X \in cand |-> [j \in 1..x.dim |-> (12 \div Cardinality(X)) * sumof(X, j)]])
        dist(v, X) == LET RECURSIVE go(_)
                          go(j) == IF j = 0 THEN 0 ELSE (12 * x.spts[v][j] - mid[X][j]) * (12 * x.spts[v][j] - mid[X][j]) + go(j - 1)
                      IN go(x.dim)
        chosen(v) == ToSet(x.place[v])
        bad == { v \in DOMAIN x.spts : chosen(v) \notin cand }
        \* those that are surely among the k that are looked at
        sure(v) == { X \in cand : ~(\E Y \in cand \ {X} : mid[Y] = mid[X])
                                  /\ Cardinality({ Y \in cand : dist(v, Y) <= dist(v, X) }) <= x.k }
        \* nodes of S are placed one by one: a subset costs its distance, and a power of ten
        \* for each of its nodes, by how many subsets it is in already
        pow(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000 [] OTHER -> 100000
        pen(X, taken) == LET RECURSIVE go(_)
                             go(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN pow(taken[t]) + go(T \ {t})
                         IN go(X)
        RECURSIVE crowded(_, _)
        crowded(n, taken) ==
            IF n > Len(x.order) THEN FALSE
            ELSE LET v == x.order[n]
                     X == chosen(v)
                     c == pen(X, taken)
                 IN  \/ \E Y \in sure(v) : \/ pen(Y, taken) <= c /\ dist(v, Y) < dist(v, X)
                                           \/ pen(Y, taken) + 9 <= c /\ dist(v, Y) <= dist(v, X) + 3600
                     \/ crowded(n + 1, TLCEval([q \in 1..nt |-> taken[q] + (IF q \in X THEN 1 ELSE 0)]))
    IN  If(Len(x.place) # Len(x.spts), "nodes")
        \cup If(bad # {}, "subset")
        \* no more than the number of neighbors are closer (the chosen one included)
        \cup If(\E v \in DOMAIN x.spts \ bad :
                   LET d == dist(v, chosen(v)) IN Cardinality({ X \in cand : dist(v, X) < d }) >= x.k, "far")
        \cup If(x.k > 1 /\ bad = {} /\ crowded(1, [q \in 1..nt |-> 0]), "overlap")
        \* the closest one, where none but that may be taken
        \cup If(x.k = 1 /\ x.distinct /\ \E v \in DOMAIN x.spts \ bad :
                   \E X \in cand : dist(v, X) < dist(v, chosen(v)), "closest")
        \cup If(~x.mapping, "mapping")
        \cup If(~x.unmodified, "modified")

\* ------------------------------------------------------------ cross
\* the grid points of a qubit, as <<low x, high x, low y, high y>>
Span(x, c) ==
    CASE x.fam = "chimera" ->
            LET t == x.t IN
            IF c[3] = 1 THEN <<c[2] * t, c[2] * t + t - 1, c[1] * t + c[4], c[1] * t + c[4]>>
            ELSE <<c[2] * t + c[4], c[2] * t + c[4], c[1] * t, c[1] * t + t - 1>>
      [] x.fam = "pegasus" ->
            LET l == 12 * c[2] + c[3]
                a == 12 * c[4] + x.offsets[c[1] + 1][c[3] + 1] IN
            IF c[1] = 1 THEN <<a, a + 11, l, l>> ELSE <<l, l, a, a + 11>>
      [] x.fam = "zephyr" ->
            LET t == x.t
                l == 2 * (t * c[2] + c[3]) + c[4]
                a == (4 * c[5] + 2 * c[4]) * t IN
            IF c[1] = 0 THEN <<a, a + 4 * t - 1, l, l>> ELSE <<l, l, a, a + 4 * t - 1>>

CrossFaults(x) ==
    LET spans == TLCEval([q \in DOMAIN x.coords |-> Span(x, x.coords[q])])
        At(g, h) == { q \in DOMAIN spans : spans[q][1] <= g /\ g <= spans[q][2] /\ spans[q][3] <= h /\ h <= spans[q][4] }
        L == AsLay(x.spts)
        s2 == Scale2(L)
        top == x.lines - 1                               \* twice the scale of the grid
        new == IF s2 * x.cell < top * x.unit THEN s2 * x.cell ELSE top * x.unit      \* in units
        \* twice the position on the grid, times unit * s2
        pos2(v, j) == top * x.unit * s2 + (2 * L[v][j] - Center2(L)[j]) * new
        close(v, j, g) == IF s2 = 0 THEN Abs(2 * g - top) <= 1
                          ELSE Abs(2 * g * x.unit * s2 - pos2(v, j)) <= x.unit * s2 + x.unit
        G(v, j) == { g \in 0..top : close(v, j, g) }
        \* the lattice may lie on its side
        fits(v) == \E g \in G(v, 1), h \in G(v, 2) : ToSet(x.place[v]) \in {At(g, h), At(h, g)}
    IN  If(Len(x.place) # Len(x.spts), "nodes") \cup If(\E v \in DOMAIN x.spts : ~fits(v), "crossing")
        \cup If(\E v \in DOMAIN x.spts : Cardinality(ToSet(x.place[v])) > 2, "crowd")

\* ------------------------------------------------------------ place
PlaceFaults(x) ==
    LET E == DOMAIN x.emb
        ch == [k \in E |-> ToSet(x.emb[k][2])]
        at(v) == CHOOSE k \in E : x.emb[k][1] = v
        adj(q) == ToSet(x.tadj[q])
        RECURSIVE reach(_, _)
        reach(S, C) == LET N == S \cup { q \in C : \E p \in S : q \in adj(p) } IN IF N = S THEN S ELSE reach(N, C)
        conn(C) == C # {} /\ reach({CHOOSE q \in C : TRUE}, C) = C
    IN IF x.exc # "" THEN If(x.exc # x.refuse, "exception")
       ELSE IF x.refuse # "" THEN {"not-refused"}
       ELSE  (IF x.emb = <<>> THEN {} ELSE
             IF { x.emb[k][1] : k \in E } # 1..x.ns \/ Len(x.emb) # x.ns THEN {"labels"}
             ELSE If(\E k \in E : ~conn(ch[k]) \/ ~(ch[k] \subseteq DOMAIN x.tadj), "broken")
                  \cup If(\E k, l \in E : k < l /\ ch[k] \cap ch[l] # {}, "overlap")
                  \cup If(\E e \in DOMAIN x.sedges : x.sedges[e][1] # x.sedges[e][2] /\
                            ~\E p \in ch[at(x.sedges[e][1])] : adj(p) \cap ch[at(x.sedges[e][2])] # {}, "edge")
                  \* a suspended chain goes through the nodes of its placement
                  \cup If(x.suspended /\ \E v \in 1..x.ns : x.place[v] # <<>> /\ ToSet(x.place[v]) \cap ch[at(v)] = {}, "suspended"))
             \* the search is find_embedding with the placement as its hint
             \cup If(~x.same, "hint")
             \* the layouts are those that were asked for
             \cup If(~x.layouts, "layouts")
             \cup If(~x.unmodified, "modified")

Faults(x) ==
    CASE x.what = "history" -> HistoryFaults(x)
      [] x.what = "graph" -> GraphFaults(x)
      [] x.what = "pnorm" -> PNormFaults(x)
      [] x.what = "pack" -> PackFaults(x)
      [] x.what = "closest" -> ClosestFaults(x)
      [] x.what = "cross" -> CrossFaults(x)
      [] x.what = "place" -> PlaceFaults(x)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
