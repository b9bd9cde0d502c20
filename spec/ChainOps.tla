------------------------------ MODULE ChainOps ------------------------------
(* The chains of an embedding as the search keeps them.                        *)
(*                                                                             *)
(* A chain has data, a function from its target nodes to <<parent, refs>>, and *)
(* links, a function from variables to its nodes: links[v] is where it meets   *)
(* the chain of v, and links[u], for the chain of u itself, is its root.  refs *)
(* counts the references to a node, as a parent and as a link.  An embedding   *)
(* is a function from variables to chains.                                     *)
(*                                                                             *)
(* ctx: nbrs  sequence of the neighbours of each variable, in the order in     *)
(*            which they are visited (none for a fixed variable)               *)
(*      tadj  adjacency of the target; dom: what each variable accepts         *)
(*      fixed the fixed variables                                              *)
EXTENDS Graphs

Empty == <<>>
Blank == [data |-> Empty, links |-> Empty]

Q(c) == DOMAIN c.data
Size(c) == Cardinality(Q(c))
Parent(c, q) == c.data[q][1]
Refs(c, q) == c.data[q][2]
LinkOf(c, x) == IF x \in DOMAIN c.links THEN c.links[x] ELSE 0
Without(f, x) == TLCEval([y \in DOMAIN f \ {x} |-> f[y]])
Incr(c, q) == [c EXCEPT !.data[q][2] = @ + 1]
Decr(c, q) == [c EXCEPT !.data[q][2] = @ - 1]

\* ------------------------------------------------------------ one chain
SetLink(c, x, q) == Incr([c EXCEPT !.links = (x :> q) @@ @], q)
DropLink(c, x) == IF x \in DOMAIN c.links
                  THEN [Decr(c, c.links[x]) EXCEPT !.links = Without(@, x)] ELSE c
Root(label, q) == [data |-> (q :> <<q, 2>>), links |-> (label :> q)]
AddLeaf(c, q, p) == Incr([c EXCEPT !.data = (q :> <<p, 0>>) @@ @], p)

\* drop q if nothing refers to it: the chain, and where that leads
TrimLeaf(c, q) ==
    IF Refs(c, q) # 0 THEN [c |-> c, r |-> q]
    ELSE LET p == Parent(c, q)
         IN  [c |-> [Decr(c, p) EXCEPT !.data = Without(@, q)], r |-> p]
RECURSIVE TrimBranch(_, _)
TrimBranch(c, q) == LET t == TrimLeaf(c, q) IN IF t.r = q THEN c ELSE TrimBranch(t.c, t.r)

\* ------------------------------------------------------------ two chains
RECURSIVE StealLoop(_, _, _, _, _, _)
\* a takes nodes of b, from the link of b on, as long as b can spare them
StealLoop(a, b, q, p, limit, dom) ==
    IF ~((limit = 0 \/ Size(a) < limit) /\ p \in dom) THEN [a |-> a, b |-> b, q |-> q, p |-> p]
    ELSE LET t == TrimLeaf(b, p) IN
         IF t.r = p THEN [a |-> a, b |-> b, q |-> q, p |-> p]
         ELSE StealLoop(TLCEval(IF p \notin Q(a) THEN AddLeaf(a, p, q)
                                ELSE IF p # q THEN Decr(TrimBranch(Incr(a, p), q), p)
                                ELSE a),
                        TLCEval(t.c), p, t.r, limit, dom)

\* u steals from v, who are linked
Steal(ctx, E, u, v, limit) ==
    LET q == LinkOf(E[u], v)
        p == LinkOf(E[v], u)
        s == StealLoop(DropLink(E[u], v), DropLink(E[v], u), q, p, limit, ctx.dom[u])
    IN  [E EXCEPT ![u] = SetLink(s.a, v, s.q), ![v] = SetLink(s.b, u, s.p)]

RECURSIVE PathLoop(_, _, _, _, _)
PathLoop(a, other, q, p, parents) ==
    IF p \in other THEN [a |-> a, q |-> q, p |-> p]
    ELSE PathLoop(TLCEval(IF p \in Q(a) THEN TrimBranch(a, q) ELSE AddLeaf(a, p, q)),
                  other, p, parents[p], parents)

\* the chain of u is linked to that of v along parents, from q on
LinkPath(E, u, v, q, parents) ==
    LET s == IF parents[q] = 0 THEN [a |-> E[u], q |-> q, p |-> q]
             ELSE PathLoop(E[u], Q(E[v]), q, parents[q], parents)
    IN  [E EXCEPT ![u] = SetLink(s.a, v, s.q), ![v] = SetLink(@, u, s.p)]

\* ------------------------------------------------------------ the embedding
Nbrs(ctx, u) == ctx.nbrs[u]

RECURSIVE StealAllFrom(_, _, _, _)
StealAllFrom(ctx, E, u, i) ==
    IF i > Len(Nbrs(ctx, u)) THEN E
    ELSE LET v == Nbrs(ctx, u)[i]
         IN  StealAllFrom(ctx, TLCEval(IF v \in ctx.fixed \/ LinkOf(E[u], v) = 0 \/ LinkOf(E[v], u) = 0
                                       THEN E ELSE Steal(ctx, E, u, v, 0)), u, i + 1)
StealAll(ctx, E, u) == StealAllFrom(ctx, E, u, 1)

RECURSIVE FlipFrom(_, _, _, _, _)
FlipFrom(ctx, E, u, target, i) ==
    IF i > Len(Nbrs(ctx, u)) THEN E
    ELSE LET v == Nbrs(ctx, u)[i]
         IN  FlipFrom(ctx, TLCEval(IF Size(E[v]) = 0 \/ v \in ctx.fixed THEN E
                                   ELSE Steal(ctx, E, v, u, target)), u, target, i + 1)
FlipBack(ctx, E, u, target) == FlipFrom(ctx, E, u, target, 1)

TearOut(ctx, E, u) ==
    TLCEval([v \in DOMAIN E |-> IF v = u THEN Blank
                                ELSE IF v \in ToSet(Nbrs(ctx, u)) THEN DropLink(E[v], u) ELSE E[v]])

\* what is put away: the chain, and where the others met it
Frozen(E, u) ==
    [data |-> E[u].data, links |-> E[u].links,
     back |-> TLCEval([v \in DOMAIN E[u].links \ {u} |-> LinkOf(E[v], u)])]
FreezeOut(E, u) ==
    TLCEval([v \in DOMAIN E |-> IF v = u THEN Blank
                                ELSE IF v \in DOMAIN E[u].links THEN DropLink(E[v], u) ELSE E[v]])
ThawBack(E, u, fr) ==
    TLCEval([v \in DOMAIN E |-> IF v = u THEN [data |-> fr.data, links |-> fr.links]
                                ELSE IF v \in DOMAIN fr.back THEN SetLink(E[v], u, fr.back[v]) ELSE E[v]])

RECURSIVE ConstructFrom(_, _, _, _, _, _)
ConstructFrom(ctx, E, u, q, parents, i) ==
    IF i > Len(Nbrs(ctx, u)) THEN E
    ELSE LET v == Nbrs(ctx, u)[i]
         IN  ConstructFrom(ctx, TLCEval(IF Size(E[v]) = 0 THEN E ELSE LinkPath(E, u, v, q, parents[v])),
                           u, q, parents, i + 1)
Construct(ctx, E, u, q, parents) == ConstructFrom(ctx, [E EXCEPT ![u] = Root(u, q)], u, q, parents, 1)

\* The Steiner variant starts the path to a neighbour at the node of the chain that is
\* nearest to it among the root and the nodes with several references; ties are open, so
\* there is a set of results.  dist[v][p] is -1 where it does not count.
Closer(x, y) == x >= 0 /\ (y < 0 \/ x < y)
Starts(c, q, d) ==
    LET cand == { p \in Q(c) : Refs(c, p) > 1 /\ Closer(d[p], d[q]) }
    IN  IF cand = {} THEN {q} ELSE { p \in cand : \A r \in cand : ~Closer(d[r], d[p]) }
RECURSIVE SteinerFrom(_, _, _, _, _, _, _)
SteinerFrom(ctx, E, u, q, parents, dist, i) ==
    IF i > Len(Nbrs(ctx, u)) THEN {E}
    ELSE LET v == Nbrs(ctx, u)[i] IN
         IF Size(E[v]) = 0 THEN SteinerFrom(ctx, E, u, q, parents, dist, i + 1)
         ELSE UNION { SteinerFrom(ctx, TLCEval(LinkPath(E, u, v, p, parents[v])), u, q, parents, dist, i + 1)
                      : p \in Starts(E[u], q, dist[v]) }
Steiner(ctx, E, u, q, parents, dist) ==
    SteinerFrom(ctx, [E EXCEPT ![u] = Root(u, q)], u, q, parents, dist, 1)

\* ------------------------------------------------------------ what always holds
Fills(ctx, E, q) == Cardinality({ v \in DOMAIN E : q \in Q(E[v]) })
AdjS(ctx, p, q) == q \in ctx.tadj[p] \/ p \in ctx.tadj[q]

RECURSIVE Climb(_, _, _)
Climb(c, q, n) == IF n = 0 \/ Parent(c, q) = q THEN q ELSE Climb(c, Parent(c, q), n - 1)

ChainFaults(ctx, E, u) ==
    LET c == E[u]
        count(q) == Cardinality({ p \in Q(c) : Parent(c, p) = q })
                    + Cardinality({ x \in DOMAIN c.links : c.links[x] = q })
    IN   IF (\E q \in Q(c) : Parent(c, q) \notin Q(c)) \/ (\E x \in DOMAIN c.links : c.links[x] \notin Q(c))
         THEN {"containment"}
         ELSE (IF \E q \in Q(c) : Refs(c, q) # count(q) THEN {"refcount"} ELSE {})
         \cup (IF u \notin ctx.fixed /\ u \in DOMAIN c.links
                  /\ \E q \in Q(c) : Climb(c, q, Size(c)) # c.links[u] THEN {"tree"} ELSE {})
         \cup (IF u \notin ctx.fixed /\ \E q \in Q(c) : Parent(c, q) # q /\ ~AdjS(ctx, q, Parent(c, q))
               THEN {"tree-edge"} ELSE {})
         \cup (IF ~(DOMAIN c.links \subseteq {u} \cup ToSet(ctx.nbrs[u]) \cup { v \in DOMAIN E : u \in ToSet(ctx.nbrs[v]) })
               THEN {"foreign-link"} ELSE {})

LinkFaults(ctx, E, u, v) ==
    LET a == LinkOf(E[u], v)  b == LinkOf(E[v], u) IN
    IF (a = 0) # (b = 0) THEN {"half-link"}
    ELSE IF a # 0 /\ a # b /\ ~AdjS(ctx, a, b) THEN {"link"}
    ELSE {}

StateFaults(ctx, E) ==
    (UNION { ChainFaults(ctx, E, u) : u \in DOMAIN E })
    \cup (UNION { UNION { LinkFaults(ctx, E, u, v) : v \in ToSet(ctx.nbrs[u]) } : u \in DOMAIN E })

\* fully linked, as far as there are chains
Joined(ctx, E) == \A u \in DOMAIN E \ ctx.fixed : Size(E[u]) > 0 =>
                     /\ LinkOf(E[u], u) # 0
                     /\ \A v \in ToSet(ctx.nbrs[u]) : Size(E[v]) > 0 => LinkOf(E[u], v) # 0
LinkedVar(ctx, E, u) == LinkOf(E[u], u) # 0 /\ \A v \in ToSet(ctx.nbrs[u]) : LinkOf(E[u], v) # 0
=============================================================================
