----------------------------- MODULE LayoutsMC -----------------------------
(* All histories of a layout object on a small grid: what it was asked for last *)
(* holds, and nothing but that has changed.                                     *)
EXTENDS Layouts
CONSTANTS Nodes, Coords, Steps, Centers, Scales
VARIABLES lay, start, want, n
vars == <<lay, start, want, n>>

None == <<>>
Init == /\ lay \in [Nodes -> [1..2 -> Coords]]
        /\ start = lay
        /\ want = [center |-> Center2(lay), scale |-> Scale2(lay), dim |-> 2]
        /\ n = 0

SetCenter(c2) == /\ CanMove(lay, c2)
                 /\ lay' = Move(lay, c2)
                 /\ want' = [want EXCEPT !.center = c2]
                 /\ UNCHANGED start
SetScale(s2) == /\ CanScale(lay, s2)
                /\ lay' = Scaled(lay, s2)
                /\ want' = [want EXCEPT !.scale = s2]
                /\ UNCHANGED start
SetDim(d) == /\ CanExtend(lay, d)
             /\ lay' = Extend(lay, d)
             /\ want' = [want EXCEPT !.dim = d, !.center = [j \in 1..d |-> IF j <= want.dim THEN @[j] ELSE 0]]
             /\ UNCHANGED start
\* another point for a node: the specs are those of the new points
SetNode(v, p) == /\ Len(p) = Dim(lay)
                 /\ lay' = Put(lay, v, p)
                 /\ start' = lay'
                 /\ want' = [center |-> Center2(lay'), scale |-> Scale2(lay'), dim |-> want.dim]

Next == /\ n < Steps
        /\ n' = n + 1
        /\ \/ \E a, b \in Centers : SetCenter(IF want.dim = 2 THEN <<a, b>> ELSE <<a, b, a>>)
           \/ \E s \in Scales : SetScale(s)
           \/ \E d \in 2..3 : SetDim(d)
           \/ \E v \in Nodes, a, b \in Coords : SetNode(v, IF want.dim = 2 THEN <<a, b>> ELSE <<a, b, b>>)
Spec == Init /\ [][Next]_vars

Kept == /\ Dim(lay) = want.dim
        /\ Center2(lay) = want.center
        /\ Scale2(lay) = want.scale
Shape == Similar(lay, start)
=============================================================================
