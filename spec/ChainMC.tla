------------------------------- MODULE ChainMC -------------------------------
(* Every history of chain operations on small problems keeps the structure     *)
(* sound: trees with exact reference counts, links that meet.                  *)
EXTENDS ChainOps
CONSTANTS Steps
VARIABLES ctx, E, fr, n
vars == <<ctx, E, fr, n>>

NQ == 4
T1 == AdjOfEdges(NQ, {<<1,2>>, <<2,3>>, <<3,4>>, <<1,4>>})
T2 == AdjOfEdges(NQ, {<<1,2>>, <<2,3>>, <<2,4>>, <<3,4>>})
All == [v \in 1..3 |-> 1..NQ]
Ctxs == { [nbrs |-> nb, tadj |-> t, dom |-> d, fixed |-> {}] :
            nb \in { <<<<2>>, <<1, 3>>, <<2>>>>, <<<<2, 3>>, <<3, 1>>, <<1, 2>>>> },
            t \in {T1, T2}, d \in { All, [All EXCEPT ![2] = {1, 2, 3}] } }
Vs == 1..3

\* parents that lead to the chain C from everywhere
Leads(t, C, p) == \A q \in 1..NQ : IF q \in C THEN p[q] = 0 ELSE p[q] \in t[q]
RECURSIVE Arrives(_, _, _, _)
Arrives(C, p, q, k) == q \in C \/ (k > 0 /\ Arrives(C, p, p[q], k - 1))
Forests(t, C) == { p \in [1..NQ -> 0..NQ] : Leads(t, C, p) /\ \A q \in 1..NQ : Arrives(C, p, q, NQ) }

Init == ctx \in Ctxs /\ E = [v \in Vs |-> Blank] /\ fr = <<>> /\ n = 0

Step(e) == E' = e /\ n' = n + 1 /\ UNCHANGED ctx

Lay == \E u \in Vs : \E q \in ctx.dom[u] :
         LET out == TearOut(ctx, E, u)
             N == { v \in ToSet(ctx.nbrs[u]) : Size(out[v]) > 0 }
         IN  \E p \in [N -> UNION { Forests(ctx.tadj, Q(out[v])) : v \in N }] :
               /\ \A v \in N : p[v] \in Forests(ctx.tadj, Q(out[v]))
               /\ Step(Construct(ctx, out, u, q, p)) /\ UNCHANGED fr
Grab == \E u \in Vs : Size(E[u]) > 0 /\ Step(StealAll(ctx, E, u)) /\ UNCHANGED fr
Flip == \E u \in Vs : \E t \in 0..3 : Size(E[u]) > 0 /\ Step(FlipBack(ctx, E, u, t)) /\ UNCHANGED fr
Tear == \E u \in Vs : Size(E[u]) > 0 /\ Step(TearOut(ctx, E, u)) /\ UNCHANGED fr
\* what was put away can be put back as long as nothing else happened to the others
Freeze == \E u \in Vs : fr = <<>> /\ Size(E[u]) > 0 /\ fr' = [u |-> u, f |-> Frozen(E, u), e |-> E]
                        /\ Step(FreezeOut(E, u))
Retry == fr # <<>> /\ \E q \in ctx.dom[fr.u] :
           LET u == fr.u  N == { v \in ToSet(ctx.nbrs[u]) : Size(E[v]) > 0 }
           IN  /\ Size(E[u]) = 0
               /\ \E p \in [N -> UNION { Forests(ctx.tadj, Q(E[v])) : v \in N }] :
                    /\ \A v \in N : p[v] \in Forests(ctx.tadj, Q(E[v]))
                    /\ Step(TearOut(ctx, Construct(ctx, E, u, q, p), u)) /\ UNCHANGED fr
Thaw == fr # <<>> /\ Size(E[fr.u]) = 0 /\ Step(ThawBack(E, fr.u, fr.f)) /\ fr' = <<>>

Next == n < Steps /\ ((fr = <<>> /\ (Lay \/ Grab \/ Flip \/ Tear \/ Freeze)) \/ Retry \/ Thaw)
Spec == Init /\ [][Next]_vars

Sound == StateFaults(ctx, E) = {}
\* chains that were laid are linked to whatever was there
Meets == fr = <<>> => Joined(ctx, E)
Restored == [][(fr # <<>> /\ fr' = <<>>) => E' = fr.e]_vars
=============================================================================
