----------------------------- MODULE UtilsJudge -----------------------------
(* The helpers around embeddings, each judged against what it means:           *)
(*   diag      diagnose_embedding lists exactly the faults of an embedding     *)
(*   filter    embedding_feasibility_filter never refuses what can be embedded *)
(*   bound     lattice_size_lower_bound never exceeds a size that suffices     *)
(*   embedded  helpers that return an embedding of a graph that they name      *)
(*   multi     find_multiple_embeddings / find_sublattice_embeddings           *)
(*   array     embeddings_to_array and array_to_embeddings                     *)
(*   boxes     rpack: rectangles that do not overlap                           *)
(* Each row carries a witness or the whole problem; nothing is taken on trust  *)
(* from the code under test but its answer.                                    *)
EXTENDS Diagnose, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

If(b, f) == IF b THEN {f} ELSE {}

\* ------------------------------------------------------------ pairs and maps
Keys(e) == { e[k][1] : k \in DOMAIN e }
IsMap(e, D) == Len(e) = Cardinality(D) /\ Keys(e) = D
AsMap(e, D) == TLCEval([v \in D |-> LET k == CHOOSE j \in DOMAIN e : e[j][1] = v IN e[k][2]])

MapFaults(e, ns, sedges, adj) ==
    IF ~IsMap(e, 1..ns) THEN {"labels"} ELSE EmbeddingFaults(AsMap(e, 1..ns), ns, sedges, adj)

\* ------------------------------------------------------------ diag
\* an error as [kind, a, b, c], ids of nodes (0 where there is none)
DiagFaults(x) ==
    LET adj == TLCEval([q \in 1..Len(x.tadj) |-> ToSet(x.tadj[q])])     \* a loop is an edge, too
        D == Keys(x.emb)
        emb == AsMap(x.emb, D)
        faults == Faults(emb, x.ns, x.sedges, adj)
        errs == { [kind |-> x.errors[k][1], a |-> x.errors[k][2], b |-> x.errors[k][3], c |-> x.errors[k][4]] :
                  k \in DOMAIN x.errors }
        raised == [kind |-> x.raised[1], a |-> x.raised[2], b |-> x.raised[3], c |-> x.raised[4]]
        ignored == ToSet(x.ignore)
    IN       If(Reports(errs, faults) # {}, "diagnosis")
        \cup If(Len(x.errors) # Cardinality(errs) /\ ~x.repeated, "twice")
        \cup If(x.valid # (faults = {}), "is-valid")
        \* the whole notion: no fault is the same as being an embedding
        \cup If(~x.repeated /\ (faults = {}) #
                (1..x.ns \subseteq D /\ IsEmbedding([v \in 1..x.ns |-> emb[v]], x.ns, x.sedges, adj)), "definition")
        \* the exception: none exactly if there is nothing but what is ignored
        \cup If((raised.kind = "none") # ({ f.kind : f \in faults } \subseteq ignored), "verify")
        \cup If(raised.kind # "none" /\ (raised.kind \in ignored \/ ~True(raised, faults)), "raised")
        \cup If(~x.unmodified, "modified")

\* ------------------------------------------------------------ filter, bound
FilterFaults(x) ==
    LET adj == Adj(x.tadj)
        nE == Len(x.sedges)
        tE == Sum([v \in DOMAIN adj |-> Cardinality(adj[v])]) \div 2
        deg(v) == Cardinality({ k \in DOMAIN x.sedges : v \in {x.sedges[k][1], x.sedges[k][2]} })
        \* a target node of degree d or more for every source node of degree d or more
        dominated == \A v \in 1..x.ns :
                        Cardinality({ w \in 1..x.ns : deg(w) >= deg(v) })
                            <= Cardinality({ q \in DOMAIN adj : Cardinality(adj[q]) >= deg(v) })
        witness == x.emb # <<>> \/ x.ns = 0
    IN       If(witness /\ MapFaults(x.emb, x.ns, x.sedges, adj) # {}, "witness")
        \cup If(witness /\ ~x.res, "refused")
        \cup If(~witness /\ x.res /\ (x.ns > Len(adj) \/ nE > tE \/ (x.one /\ ~dominated)), "accepted")

BoundFaults(x) ==
    IF x.exc # "" THEN If(x.exc # "ValueError" \/ ~x.illegal, "exception")
    ELSE     If(x.illegal, "not-refused")
        \cup If(x.emb # <<>> /\ MapFaults(x.emb, x.ns, x.sedges, Adj(x.tadj)) # {}, "witness")
        \* there is an embedding in the lattice of size m
        \cup If(x.emb # <<>> /\ (x.bound < 0 \/ x.bound > x.m), "too-large")
        \* a bound that is given has room for the nodes and the edges
        \cup If(x.bound >= 0 /\ (x.nodes < x.ns \/ x.edges < Len(x.sedges)), "too-small")

\* ------------------------------------------------------------ embedded
EmbeddedFaults(x) ==
    IF x.exc # "" THEN If(x.exc # "ValueError" \/ x.has = 1, "exception")
    ELSE IF ~x.found THEN If(x.has = 1, "not-found")
    ELSE If(x.has = 0, "found") \cup MapFaults(x.emb, x.ns, x.sedges, Adj(x.tadj))

\* ------------------------------------------------------------ multi
\* can the partial one-to-one embedding f of the source nodes 1..Len(f) be completed
\* within the set of target nodes `free'?
RECURSIVE Extends(_, _, _, _, _)
Extends(f, ns, nbrs, adj, free) ==
    LET k == Len(f) + 1 IN
    \/ k > ns
    \/ \E q \in free : /\ \A u \in nbrs[k] : u < k => q \in adj[f[u]]
                       /\ Extends(Append(f, q), ns, nbrs, adj, free \ {q})

MultiFaults(x) ==
    LET adj == Adj(x.tadj)
        nt == Len(adj)
        E == DOMAIN x.embs
        nodes(e) == UNION { ToSet(e[k][2]) : k \in DOMAIN e }
        used == UNION { nodes(x.embs[k]) : k \in E }
        most == IF x.limit < 0 THEN nt \div x.ns ELSE Min2(x.limit, nt \div x.ns)
        nbrs == [v \in 1..x.ns |-> { w \in 1..x.ns : \E k \in DOMAIN x.sedges :
                                       {v, w} = {x.sedges[k][1], x.sedges[k][2]} /\ v # w }]
        region(k) == ToSet(x.regions[k])
        prop(k) == x.proposals[k]
        same(e, p) == \A k \in DOMAIN e : e[k][2] = p[e[k][1]]
        stays(p) == \A v \in 1..x.ns : ToSet(p[v]) \subseteq ((1..nt) \ used)
    IN  IF x.exc # "" THEN If(x.exc # "ValueError" \/ ~x.illegal, "exception")
        ELSE IF x.illegal THEN {"not-refused"}
        ELSE UNION { MapFaults(x.embs[k], x.ns, x.sedges, adj) : k \in E }
        \cup If(x.one /\ \E k \in E, j \in 1..x.ns : j \in DOMAIN x.embs[k] /\ Len(x.embs[k][j][2]) # 1, "one-to-one")
        \cup If(\E k, l \in E : k < l /\ nodes(x.embs[k]) \cap nodes(x.embs[l]) # {}, "shared")
        \cup If(Len(x.embs) > Max2(most, 0), "too-many")
        \* each is inside of one image of the tile, or is the image of the tile's embedding
        \cup If(\E k \in E : ~\E r \in DOMAIN x.regions : nodes(x.embs[k]) \subseteq region(r), "outside")
        \cup If(x.tiled /\ \E k \in E : ~\E p \in DOMAIN x.proposals : same(x.embs[k], prop(p)), "not-the-tile")
        \* with an embedder that finds what there is, nothing is left over
        \cup If(x.exact /\ ~x.tiled /\ Len(x.embs) < most
                /\ \E r \in DOMAIN x.regions : Extends(<<>>, x.ns, nbrs, adj, region(r) \ used), "left-over")
        \cup If(x.exact /\ x.tiled /\ Len(x.embs) < most
                /\ \E p \in DOMAIN x.proposals : stays(prop(p)) /\ EmbeddingFaults(prop(p), x.ns, x.sedges, adj) = {},
                "left-over")
        \cup If(~x.unmodified, "modified")
        \cup If(~x.again, "not-repeatable")

\* ------------------------------------------------------------ array
ArrayFaults(x) ==
    LET row(k) == [j \in DOMAIN x.order |-> LET e == x.embs[k]
                                               p == CHOOSE l \in DOMAIN e : e[l][1] = x.order[j] IN e[p][2]]
        want == [k \in DOMAIN x.embs |-> row(k)]
        pairs == [k \in DOMAIN x.embs |-> { <<x.order[j], row(k)[j]>> : j \in DOMAIN x.order }]
        got == [k \in DOMAIN x.back |-> { <<x.back[k][j][1], x.back[k][j][2]>> : j \in DOMAIN x.back[k] }]
    IN  If(x.arr # want, "array") \cup If(got # pairs, "back") \cup If(x.exc # "", "exception")

\* ------------------------------------------------------------ boxes
\* a box as <<x, y, width, height>>
BoxFaults(x) ==
    LET B == DOMAIN x.boxes
        b(k) == x.boxes[k]
        apart(k, l) == \/ b(k)[1] + b(k)[3] <= b(l)[1] \/ b(l)[1] + b(l)[3] <= b(k)[1]
                       \/ b(k)[2] + b(k)[4] <= b(l)[2] \/ b(l)[2] + b(l)[4] <= b(k)[2]
    IN       If(Len(x.boxes) # x.n, "lost")
        \cup If(\E k \in B : b(k)[1] < 0 \/ b(k)[2] < 0, "outside")
        \cup If(\E k, l \in B : k < l /\ ~apart(k, l), "overlapping")
        \cup If(x.size # <<>> /\ \E k \in B : b(k)[1] + b(k)[3] > x.size[1] \/ b(k)[2] + b(k)[4] > x.size[2], "enclosing")

Faults0(x) ==
    CASE x.what = "diag" -> DiagFaults(x)
      [] x.what = "filter" -> FilterFaults(x)
      [] x.what = "bound" -> BoundFaults(x)
      [] x.what = "embedded" -> EmbeddedFaults(x)
      [] x.what = "multi" -> MultiFaults(x)
      [] x.what = "array" -> ArrayFaults(x)
      [] x.what = "boxes" -> BoxFaults(x)
      [] x.what = "flag" -> If(~x.ok, x.name)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults0(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
