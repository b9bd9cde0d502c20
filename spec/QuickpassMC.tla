----------------------------- MODULE QuickpassMC -----------------------------
(* A quickpass, step by step, over all small problems: for each variable of the *)
(* order, take what the neighbours can spare, tear the chain out, lay a new one *)
(* where there is room, hand parts of it back to the neighbours, and drop it    *)
(* when it is too long.  The clauses of Quickpass must follow from that.        *)
EXTENDS Quickpass

CONSTANTS NS, NT, MaxLen, MaxOver, InitSize, Small
VARIABLES c, order, len, over, before, ch, pos, pc, u

vars == <<c, order, len, over, before, ch, pos, pc, u>>

TPairs == { p \in (1..NT) \X (1..NT) : p[1] < p[2] }
SPairs == { p \in (1..NS) \X (1..NS) : p[1] < p[2] }
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>>
            ELSE LET x == CHOOSE x \in S : TRUE IN Append(AsSeq(S \ {x}), x)

\* the targets: a cycle with a chord is enough to have choices, detours and dead ends
TGraphs == { {<<1,2>>, <<2,3>>, <<3,4>>},
             {<<1,2>>, <<2,3>>, <<3,4>>, <<1,4>>},
             {<<1,2>>, <<1,3>>, <<1,4>>},
             {<<1,2>>, <<2,3>>, <<1,3>>, <<3,4>>} }
TGraphs1 == IF Small THEN { {<<1,2>>, <<2,3>>, <<3,4>>, <<1,4>>}, {<<1,2>>, <<1,3>>, <<1,4>>} } ELSE TGraphs
SGraphs == IF Small THEN { {<<1,2>>, <<2,3>>}, {<<1,2>>, <<1,3>>, <<2,3>>} } ELSE SUBSET SPairs

Orders == { <<1>>, <<2, 1>>, <<2, 3, 2>>, <<1, 2, 3>>, <<3, 1>>, <<2>> }
Chains == { s \in SUBSET (1..NT) : Cardinality(s) <= InitSize }

Init ==
    /\ \E S \in SGraphs, T \in TGraphs1, f \in {<<>>, (1 :> {1})} :
          c = [ns |-> NS, sedges |-> AsSeq(S), tadj |-> AdjOfEdges(NT, T), fixed |-> f,
               restr |-> <<>>, blobs |-> {}]
    /\ order \in { o \in Orders : \A i \in DOMAIN o : o[i] \notin DOMAIN c.fixed }
    /\ len \in 0..MaxLen /\ over \in 0..MaxOver
    /\ \E init \in [2..NS -> { s \in Chains : TRUE }] : before = Start(c, init)
    /\ ch = before /\ pos = 1 /\ pc = "steal" /\ u = 0

\* v can spare q: what is left is nonempty, holds together and keeps its links
Spare(v, q, w) ==
    LET rest == ch[v] \ {q} IN
    /\ rest # {} /\ (Connected(c.tadj, ch[v]) => Connected(c.tadj, rest))
    /\ \A x \in Others(c, v) \ {w} :
          ch[x] # {} /\ Linked(c, ch, v, x) =>
             LET ch2 == [ch EXCEPT ![v] = rest] IN Linked(c, ch2, v, x)

Give(v, w) ==      \* one node of v goes to its neighbour w
    \E q \in ch[v] :
      /\ Spare(v, q, w) /\ v \in Loose(c) /\ w \in Loose(c) /\ Linked(c, ch, v, w)
      /\ LET ch2 == [ch EXCEPT ![v] = @ \ {q}, ![w] = @ \cup {q}] IN
           /\ Linked(c, ch2, v, w)
           /\ (Connected(c.tadj, ch[w]) => Connected(c.tadj, ch2[w]))
           /\ ch' = ch2

Here == order[pos]

Steal == /\ pc = "steal" /\ pos <= Len(order) /\ ch[Here] # {}
         /\ \E v \in Others(c, Here) : ch[v] # {} /\ Give(v, Here)
         /\ UNCHANGED <<c, order, len, over, before, pos, pc, u>>

Lay == /\ pc = "steal" /\ pos <= Len(order)
       /\ LET out == [ch EXCEPT ![Here] = {}]
              N == { v \in Others(c, Here) : out[v] # {} }
              ok == { q \in Nodes(c.tadj) \ Reserved(c) : FillOf(c, out, q) <= over }
              \* a path ends where it meets the chain of the neighbour, which may be of
              \* any fill; the nodes it takes are not full
              C == { K \in SUBSET ok : /\ K # {} /\ Connected(c.tadj, K)
                                       /\ \A v \in N : \/ K \cap out[v] # {}
                                                       \/ \E q \in K : c.tadj[q] \cap out[v] # {} }
          IN  IF C = {} THEN /\ ch' = out /\ pc' = "steal" /\ pos' = pos + 1
              ELSE /\ \E K \in C : ch' = [ch EXCEPT ![Here] = K]
                   /\ pc' = "flip" /\ UNCHANGED pos
       /\ u' = Here /\ UNCHANGED <<c, order, len, over, before>>

\* a variable without overlaps that is linked to all of its neighbours may also keep its chain
Keep == /\ pc = "steal" /\ pos <= Len(order) /\ ch[Here] # {} /\ Connected(c.tadj, ch[Here])
        /\ \A v \in Others(c, Here) : ch[v] # {} /\ Linked(c, ch, Here, v)
        /\ pc' = "flip" /\ UNCHANGED <<c, order, len, over, before, ch, pos, u>>

Flip == /\ pc = "flip"
        /\ \E v \in Others(c, Here) : /\ ch[v] # {} /\ Give(Here, v)
                                      /\ (len > 0 => Cardinality(ch'[v]) <= Max2(len, Cardinality(ch[v])))
                                      /\ (len > 0 => Cardinality(ch[v]) < len)
        /\ UNCHANGED <<c, order, len, over, before, pos, pc, u>>

Bound == /\ pc = "flip"
         /\ ch' = IF len > 0 /\ Cardinality(ch[Here]) > len THEN [ch EXCEPT ![Here] = {}] ELSE ch
         /\ pc' = "steal" /\ pos' = pos + 1
         /\ UNCHANGED <<c, order, len, over, before, u>>

Next == Steal \/ Lay \/ Keep \/ Flip \/ Bound
Spec == Init /\ [][Next]_vars

Done == pos > Len(order)
Follows == Done => QpFaults(c, before, order, len, over, ch) = {}
=============================================================================
