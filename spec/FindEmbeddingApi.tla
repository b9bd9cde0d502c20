-------------------------- MODULE FindEmbeddingApi --------------------------
(* The contract of find_embedding, as a relation between a call and its reply. *)
(*                                                                             *)
(* call:  ns, sedges, tadj   the two graphs (MinorEmbedding's representation)  *)
(*        overlap            return_overlap was requested                      *)
(*        fixed, restr       partial maps source node -> set of target nodes   *)
(*        blobs              set of <<source node, set of target nodes>>       *)
(*        maxfill            0: no bound                                       *)
(*        free               nothing constrains the chains: the search has     *)
(*                           always something to start from                    *)
(* reply: ret   "dict", "pair", "exc" (an exception of Python), "crash"        *)
(*        flag  the second component of a pair (0 or 1)                        *)
(*        emb   sequence of <<source node, sequence of target nodes>>, in      *)
(*              which 0 stands for a label that is in neither graph            *)
(*                                                                             *)
(* ReplyFaults is the set of the clauses of the contract that a reply breaks.  *)
EXTENDS MinorEmbedding

Success(c, r) == \/ r.ret = "dict" /\ Len(r.emb) > 0
                 \/ r.ret = "pair" /\ r.flag = 1

ReplyKeys(r) == { r.emb[i][1] : i \in DOMAIN r.emb }
EmbOf(r) == TLCEval([v \in ReplyKeys(r) |->
              r.emb[CHOOSE i \in DOMAIN r.emb : r.emb[i][1] = v][2]])

ShapeFaults(c, r) ==
       (IF r.ret = "crash" THEN {"crash"} ELSE {})
  \cup (IF r.ret = "exc" /\ r.bug THEN {"internal-error"} ELSE {})
  \cup (IF r.ret \in {"dict", "pair"} /\ (r.ret = "pair") # c.overlap THEN {"shape"} ELSE {})
  \cup (IF r.ret = "other" THEN {"shape"} ELSE {})
  \cup (IF r.ret = "pair" /\ r.flag \notin {0, 1} THEN {"flag"} ELSE {})
  \cup (IF 0 \in ReplyKeys(r) \/ ~(ReplyKeys(r) \subseteq 1..c.ns)
           \/ Cardinality(ReplyKeys(r)) # Len(r.emb) THEN {"key"} ELSE {})

\* the caller fixed something that is not a part of any embedding
FixedSound(c) ==
    LET F == DOMAIN c.fixed IN
    /\ \A v \in F : c.fixed[v] # {} /\ Connected(c.tadj, c.fixed[v])
    /\ \A u, v \in F : u # v => c.fixed[u] \cap c.fixed[v] = {}
    /\ \A i \in DOMAIN c.sedges :
          LET u == c.sedges[i][1]  v == c.sedges[i][2] IN
          u \in F /\ v \in F /\ u # v => Touch(c.tadj, c.fixed[u], c.fixed[v])

FixedFaults(c, e) ==
    LET F == DOMAIN c.fixed
        Q == UNION { c.fixed[v] : v \in F }
    IN   (IF \E v \in F : v \notin DOMAIN e \/ ToSet(e[v]) # c.fixed[v] THEN {"fixed"} ELSE {})
    \cup (IF \E u \in DOMAIN e \ F : ToSet(e[u]) \cap Q # {} THEN {"reserved"} ELSE {})

NbrsOf(c, v) == { c.sedges[i][1] : i \in { j \in DOMAIN c.sedges : c.sedges[j][2] = v } }
           \cup { c.sedges[i][2] : i \in { j \in DOMAIN c.sedges : c.sedges[j][1] = v } }

Domain(c, v) == IF v \in DOMAIN c.restr /\ c.restr[v] # {} THEN c.restr[v] ELSE Nodes(c.tadj)

\* A chain is rooted inside its own domain and leaves it at most for the domains of the
\* neighbours it meets; it cannot leave it at all if they do not reach further.
RestrictFaults(c, e) ==
    LET V == { v \in DOMAIN e \ DOMAIN c.fixed : e[v] # <<>> } IN
         (IF \E v \in V : ToSet(e[v]) \cap Domain(c, v) = {} THEN {"restrict-root"} ELSE {})
    \cup (IF \E v \in V : ~(ToSet(e[v]) \subseteq
                  Domain(c, v) \cup UNION { Domain(c, u) : u \in NbrsOf(c, v) })
          THEN {"restrict"} ELSE {})

BlobFaults(c, e) ==
    IF \E b \in c.blobs : b[2] # {} /\ (b[1] \notin DOMAIN e \/ ToSet(e[b[1]]) \cap b[2] = {})
    THEN {"suspend"} ELSE {}

\* The bound is on the chains the search lays, so fixed chains are not counted.
FillFaults(c, e) ==
    LET D == DOMAIN e \ DOMAIN c.fixed
        ch == TLCEval([v \in D |-> ToSet(e[v])])
    IN  IF c.maxfill > 0 /\ D # {} /\ MaxFill(ch) > c.maxfill THEN {"fill"} ELSE {}

InitFaults(c, r) ==
    \* handed a valid embedding to start from, the search cannot do worse
    IF c.init = <<>> THEN {}
    ELSE IF ~Success(c, r) THEN {"lost"}
    ELSE IF DOMAIN EmbOf(r) = 1..c.ns /\ Worse(EmbOf(r), c.init) THEN {"worse"} ELSE {}

Tag(prefix, S) == { prefix \o x : x \in S }

ReplyFaults(c, r) ==
    LET e == EmbOf(r)
        shape == ShapeFaults(c, r)
    IN  IF shape # {} THEN shape
        ELSE IF r.ret = "exc" THEN (IF c.init # <<>> THEN {"lost"} ELSE {})
                               \cup (IF c.free THEN {"refused"} ELSE {})
        ELSE IF r.emb = <<>> /\ c.ns > 0 /\ r.ret = "dict" THEN InitFaults(c, r)
        ELSE (IF DOMAIN e # 1..c.ns THEN {"domain"} ELSE {}) \cup
             (IF Success(c, r)
              THEN LET ef == EmbeddingFaults(e, c.ns, c.sedges, c.tadj)
                   IN  IF FixedSound(c) THEN ef ELSE ef \ {"broken", "overlap", "edge"}
              ELSE LET sf == SemiFaults(e, c.ns, c.sedges, c.tadj)
                   IN  Tag("semi-", IF FixedSound(c) THEN sf ELSE sf \ {"broken", "edge"})
                       \cup (IF IsEmbedding(e, c.ns, c.sedges, c.tadj)
                             THEN {"flag-low"} ELSE {}))
             \cup FixedFaults(c, e) \cup RestrictFaults(c, e) \cup BlobFaults(c, e)
             \cup FillFaults(c, e)
             \cup InitFaults(c, r)
=============================================================================
