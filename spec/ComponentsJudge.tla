--------------------------- MODULE ComponentsJudge ---------------------------
(* The components of a graph, its neighbour lists and the translation of       *)
(* labels, as graph.hpp returns them.  Nodes and labels count from 1.          *)
EXTENDS Graphs, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLE i

Pairs(s) == { <<s[k][1], s[k][2]>> : k \in DOMAIN s }

\* neighbour lists: sorted, without repetition
ListFaults(rows, want(_), n) ==
    IF Len(rows) # n THEN {"length"}
    ELSE UNION { (IF ToSet(rows[x]) # want(x) THEN {"neighbours"} ELSE {})
            \cup (IF Cardinality(ToSet(rows[x])) # Len(rows[x]) THEN {"repeated"} ELSE {}) : x \in 1..n }

CompFaults(x) ==
    LET n == x.n
        adj == AdjOfEdges(n, Pairs(x.edges))
        res == ToSet(x.reserved)
        looped == { e[1] : e \in { f \in Pairs(x.edges) : f[1] = f[2] } }
        per(c) ==
            LET g == x.comps[c]
                ns == g.nodes
                m == Len(ns)
                nr == Cardinality(ToSet(ns) \cap res)
                bare == m = 1 /\ ns[1] \notin looped
                \* edges of the component's graph, translated back
                es == { <<ns[e[1]], ns[e[2]]>> : e \in Pairs(g.edges) }
                mine == { e \in Pairs(x.edges) : e[1] \in ToSet(ns) }
            IN   (IF m = 0 THEN {"empty"} ELSE {})
            \cup (IF m > 0 /\ ToSet(ns) # ComponentOf(adj, 1..n, ns[1]) THEN {"component"} ELSE {})
            \cup (IF Cardinality(ToSet(ns)) # m THEN {"repeated"} ELSE {})
            \cup (IF \E k \in 1..m : (ns[k] \in res) # (k > m - nr) THEN {"reserved-last"} ELSE {})
            \cup (IF g.reserved # nr THEN {"num-reserved"} ELSE {})
            \* a lone node without a loop is in no edge, and its graph does not know of it
            \cup (IF g.size # m /\ ~bare THEN {"size"} ELSE {})
            \cup (IF \E e \in Pairs(g.edges) : e[1] \notin 1..m \/ e[2] \notin 1..m THEN {"labels"}
                  ELSE IF es # mine \/ Len(g.edges) # Len(SelectSeq(x.edges, LAMBDA e : e[1] \in ToSet(ns)))
                  THEN {"edges"} ELSE {})
            \cup (IF bare THEN {}
                  ELSE ListFaults(g.nbrs, LAMBDA k : { j \in 1..m : ns[j] \in adj[ns[k]] /\ ns[j] \notin res }, m))
    IN  (IF UNION { ToSet(x.comps[c].nodes) : c \in DOMAIN x.comps } # 1..n
            \/ Sum([c \in DOMAIN x.comps |-> Len(x.comps[c].nodes)]) # n THEN {"partition"} ELSE {})
        \cup (IF \E c \in 2..Len(x.comps) : Len(x.comps[c].nodes) > Len(x.comps[c - 1].nodes)
              THEN {"order"} ELSE {})
        \cup UNION { per(c) : c \in DOMAIN x.comps }

\* translations: [component, nodes asked for, answer, labels, back]
MapFaults(x) ==
    LET per(p) ==
            LET ns == x.comps[p.c].nodes
                inside == ToSet(p.asked) \subseteq ToSet(ns)
            IN   (IF p.ok # inside THEN {"into"} ELSE {})
            \cup (IF p.ok /\ inside /\ (Len(p.labels) # Len(p.asked)
                     \/ \E k \in DOMAIN p.labels : ~(p.labels[k] \in DOMAIN ns /\ ns[p.labels[k]] = p.asked[k]))
                  THEN {"into"} ELSE {})
            \cup (IF p.ok /\ p.back # p.asked THEN {"back"} ELSE {})
    IN  UNION { per(x.maps[k]) : k \in DOMAIN x.maps }

\* the ways of asking for neighbours: sources have no edges towards them, sinks none out
NbrFaults(x) ==
    LET n == x.n
        adj == AdjOfEdges(n, Pairs(x.edges))
        per(p) ==
            LET marked == ToSet(p.marked)
                on == IF p.masked THEN ToSet(p.mask) ELSE 1..n
                inv(y) == { z \in 1..n : p.relabel[z] = y }
                out(z) == IF z \notin on THEN {}
                          ELSE IF p.kind = 2 /\ z \in marked THEN {}
                          ELSE { y \in adj[z] : ~(p.kind = 1 /\ y \in marked) }
            IN  ListFaults(p.nbrs, LAMBDA y : UNION { { p.relabel[w] : w \in out(z) } : z \in inv(y) }, n)
    IN  UNION { per(x.asks[k]) : k \in DOMAIN x.asks }

CountFaults(x) == IF x.nodes # x.n \/ x.num_edges # Len(x.edges) THEN {"count"} ELSE {}
Faults(x) == CountFaults(x) \cup CompFaults(x) \cup MapFaults(x) \cup NbrFaults(x)

Init == i = 0
Next == /\ i < Len(Rows)
        /\ i' = i + 1
        /\ \A f \in Faults(Rows[i']) : PrintT(<<"REJECT", i', f>>)
        /\ (i' < Len(Rows) \/ PrintT(<<"JUDGED", i'>>))
Spec == Init /\ [][Next]_i
=============================================================================
