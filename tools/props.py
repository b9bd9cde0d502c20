"""The table behind properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, META = [], {}


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note,
         state=(), level="model_checking"):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
    META[id] = (technique, level, note)


PF = "include/find_embedding/pathfinder.hpp"
EM = "include/find_embedding/embedding.hpp"
EP = "include/find_embedding/embedding_problem.hpp"
CH = "include/find_embedding/chain.hpp"
FE = "include/find_embedding/find_embedding.hpp"
GR = "include/find_embedding/graph.hpp"
PQ = "include/find_embedding/pairing_queue.hpp"
PX = "minorminer/_minorminer.pyx"
BC = "minorminer/busclique.pyx"

TLA = "TLA+/TLC: "
SAMPLED = (" Sampled calls of the code, seeded; the judgement of each is TLC's evaluation of the "
           "specification; trusts the harness's encoding and TLC.")

prop("C01", "A reported embedding is a minor embedding",
     "Whenever find_embedding or a miner reports an embedding, every source node has exactly one "
     "nonempty, repetition-free, connected chain of target nodes, no two chains share a target node, "
     "and every source edge is represented by a target edge between the two chains. This holds for "
     "every source and target graph, every input form and every setting of the parameters.",
     ["inputs", "configurations"],
     "all source and target graphs (any labels, disconnected, with isolated nodes, loops, multi-edges), "
     "all input forms, all parameter settings, seeds and thread counts",
     "The tests embed a few families of graphs with a few seeds; the guarantee is over every graph "
     "pair and every combination of parameters, most of which a test never draws.",
     [FE, PF, EM, CH, PX],
     [("overlap counting and check_improvement", PF), ("linked chains", EM),
      ("result assembly per component", FE), ("label translation", PX)],
     ["return value of minorminer.find_embedding", "return value of miner.find_embedding"],
     TLA + "calls judged by the FindEmbeddingApi contract; MinorOps model of what a minor is",
     "Each recorded reply is judged by spec/MinorEmbedding; spec/MinorOps model-checks that definition "
     "against contraction/deletion on all small graphs." + SAMPLED)

prop("C02", "return_overlap: the pair, its flag, and chains valid up to overlap",
     "With return_overlap the reply is a pair whose flag is 1 exactly when the chains are a minor "
     "embedding; otherwise the chains are still one nonempty connected chain per source node with every "
     "source edge represented by adjacent or intersecting chains. Without it, a failed search returns an "
     "empty mapping and never a partial one.",
     ["inputs", "configurations"],
     "all problems, solvable or not, stopped early or not, with and without return_overlap",
     "Failure is the interesting case and depends on graph, seed and moment of stopping; tests check the "
     "shape of one or two such replies.",
     [FE, PF, PX], [("bestEmbedding and ep.embedded", PF), ("return_overlap handling", FE)],
     ["return value of minorminer.find_embedding with return_overlap"],
     TLA + "replies judged by FindEmbeddingApi (semi-validity, flag)",
     "Replies of unsolvable, stopped and constrained problems judged by the contract." + SAMPLED)

prop("C03", "fixed_chains are kept verbatim and exclusively",
     "A source node with a fixed chain has exactly that chain in every reply, and no other chain uses a "
     "target node of a fixed chain, whatever initial chains are given.",
     ["inputs", "configurations"],
     "all consistent choices of fixed chains, with or without other constraints, successful or not",
     "Tests fix one or two chains of one problem; reservation of the fixed qubits interacts with initial "
     "chains, components, threads and every phase of the search.",
     [PF, EM, EP, FE], [("reserved qubits and fix_chain", EM), ("fixed variables last", FE)],
     ["return value of minorminer.find_embedding"],
     TLA + "replies judged by FindEmbeddingApi; Constraints model of the reduction",
     "spec/Constraints model-checks that the reduction used for fixing and suspending is equivalent to the "
     "constrained problem on all small instances; replies judged by the contract." + SAMPLED)

prop("C04", "restrict_chains bound where chains may be",
     "Every chain meets the domain its source node is restricted to, and leaves it at most for the domains "
     "of the neighbours it is joined to; in particular it stays inside its own domain when the neighbours' "
     "domains do not reach further.",
     ["inputs", "configurations"],
     "all choices of nonempty domains inside the searched component, with or without other constraints",
     "Every phase (initialization, overlap, pushdown, chain length) has its own way of growing chains and "
     "each of them must respect the domains; tests look at one final result.",
     [PF, EM, EP], [("domain_handler_masked", EP), ("steal / link_path", CH)],
     ["return value of minorminer.find_embedding"],
     TLA + "replies judged by FindEmbeddingApi; Constraints model",
     "Stated as the implementation documents it (`somewhat soft'): see DESIGN.md." + SAMPLED)

prop("C05", "suspend_chains: every chain meets each of its blobs",
     "For every source node and every nonempty blob suspended for it, the chain of the node in the reply "
     "contains a target node of the blob; pins never show in a reply.",
     ["inputs", "configurations"],
     "all families of blobs, overlapping or shared or repeated, with other constraints",
     "The feature is implemented by auxiliary fixed variables; leaks and misses depend on label order and on "
     "which other constraints are present.",
     [PX, PF], [("pins as fixed variables", PX)], ["return value of minorminer.find_embedding"],
     TLA + "replies judged by FindEmbeddingApi; Constraints model of the pin reduction",
     "spec/Constraints shows the pin reduction sound and complete on all small instances." + SAMPLED)

prop("C07", "Stopping, trials and patience follow the documented control flow",
     "The search runs the documented trials and passes, asks to stop once at the end of every complete pass, "
     "honours a stop at once, returns the best chains it has ever reported (or raises when cancelled "
     "non-interactively), and what it reports never depends on verbosity.",
     ["schedules", "histories", "configurations"],
     "every poll at which a timeout or an interrupt may arrive, every combination of tries, patience, rounds",
     "A stop can arrive at any of hundreds of polls; tests use one or two timeouts.",
     [PF, "include/find_embedding/util.hpp"],
     [("heuristicEmbedding and its passes", PF), ("check_stops", PF)],
     ["messages and polls of LocalInteraction", "return value of findEmbedding"],
     TLA + "model checking of the driver (FindEmbeddingMC) and trace validation (DriverTrace)",
     "The driver specification is checked exhaustively for small parameters incl. termination; recorded runs "
     "with stops injected at polls must be behaviours of it.",
     [("ep.embedded, best_stats, pushback", "progress of the search", PF)])

prop("C08", "Improving never loses or worsens a valid embedding",
     "A search that starts from a valid embedding returns an embedding, and its chain length histogram is "
     "not worse (longest chains first) than the one it started from; more patience with the same seed never "
     "gives a worse result.",
     ["inputs", "histories"],
     "all valid starting embeddings, all chains of repeated improvement, all stops",
     "Monotonicity is a property of every step of every improvement history; a test sees one start and one end.",
     [PF, EM], [("check_improvement / bestEmbedding", PF)],
     ["initial_chains and return value of find_embedding", "miner.improve_embeddings"],
     TLA + "model checking of the bookkeeping, improvement histories judged",
     "Driver model has the monotonicity invariant; histories of real improvements are judged." + SAMPLED)

prop("C09", "max_fill bounds the overlap of every reported mapping",
     "With max_fill given, no target node is in more than max_fill of the chains the search lays, whether or "
     "not an embedding was found.",
     ["inputs", "configurations"],
     "all problems and bounds, with fixed chains and restrictions",
     "The bound has to hold at every chain laid by every phase; tests do not look at overlapped results.",
     [PF], [("weight_bound", PF)], ["chains of a return_overlap reply"],
     TLA + "replies judged by FindEmbeddingApi (fill)",
     "Overlapped replies judged by the contract." + SAMPLED)

prop("C10", "Every call ends in a reply or a Python exception",
     "However wrong the arguments of find_embedding or of the miner's methods are, the call ends with a reply "
     "or a Python exception: the process neither dies nor hangs, no internal error surfaces for legal input, "
     "and an unconstrained search with a nonempty target never refuses to answer.",
     ["inputs", "histories"],
     "all arguments: wrong types, values out of range, unknown labels, iterables that fail, any order of miner calls",
     "Tests try a handful of wrong arguments one at a time; crashes need combinations.",
     [PX, PF, FE], [("input parsing and exception translation", PX)],
     ["fate of the process", "exceptions of find_embedding"],
     TLA + "replies and fates judged by FindEmbeddingApi",
     "Random ill-formed calls in processes of their own, containers with bounds checks; the contract has no "
     "action for a crash or a hang." + SAMPLED)

# --- more below: tools/props_more.py
try:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import props_more
    props_more.add(prop, globals())
except ImportError:
    pass

NOT_APPLICABLE = []

if __name__ == "__main__":
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": META[p["id"]][0], "level": META[p["id"]][1],
                       "level_note": META[p["id"]][2]} for p in P],
           "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE],
           "notes": "TLA+ with TLC; no hooks in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
