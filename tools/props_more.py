"""More properties (see props.py)."""


def add(prop, g):
    TLA, SAMPLED = g["TLA"], g["SAMPLED"]
    PF, EM, EP, CH, FE, GR, PQ, PX, BC = (g[k] for k in ("PF", "EM", "EP", "CH", "FE", "GR", "PQ", "PX", "BC"))

    prop("C06", "A seeded search is a function of its arguments",
         "With random_seed given and time not the limit, find_embedding is a function of its arguments: repeating "
         "a call, in the same process after any other calls or in another process with another hash seed or "
         "environment, gives the same reply; verbose, interactive and the number of threads (1, or any number of 2 "
         "and more) change nothing, miner(...).find_embedding() on a fresh miner agrees with find_embedding(...), "
         "and the arguments are not modified.",
         ["schedules", "histories", "configurations"],
         "all thread schedules, all histories of calls in a process, all hash seeds, all ways of asking",
         "Reproducibility has to hold for every interleaving of the workers and every history in the process; a test "
         "compares two calls in one process.",
         [PF, FE, PX, "include/fastrng.hpp", "minorminer/minorminer.py"],
         [("pathfinder_parallel: workers write rows of their own", PF), ("rng seeding", "include/find_embedding/util.hpp"),
          ("default parameters", "minorminer/minorminer.py")],
         ["replies of find_embedding and miner.find_embedding"],
         TLA + "model checking of the worker pool (Workers), replayed histories of calls judged by Replay",
         "Workers: every interleaving of the pool reaches the same result. Real calls repeated with other threads, "
         "verbosity, histories and processes; Replay admits one reply per request." + SAMPLED)

    prop("C11", "A miner keeps its promises over every history of calls",
         "Whatever sequence of quickpass, find_embedding(s), improve_embeddings and set_initial_chains a miner has "
         "seen: a quickpass starts from the initial chains (clear_first, or the first pass) or from the chains the "
         "miner holds, replaces only the chains of the given variables and lends to and from their neighbours, keeps "
         "chainlength_bound and overlap_bound, leaves chains connected and represents every edge between variables "
         "with chains, never touches fixed chains, and gives up on a variable only when there is no room; searches "
         "start from the latest initial chains; result lists have the promised length; quality_key is the documented "
         "(state, overlap histogram, chain length histogram), so that its minimum is the best embedding.",
         ["histories", "inputs", "configurations"],
         "all sequences of method calls on a miner, all orders, bounds, strategies and starting chains",
         "The object carries state from call to call; the tests do a few calls on one problem, and never look at the "
         "chains a quickpass leaves.",
         [PX, PF, EM, CH], [("quickPass", PF), ("miner.quickpass, improve_embeddings, quality_key", PX)],
         ["replies of the methods of minorminer.miner"],
         TLA + "model checking of a pass (QuickpassMC), histories of miner objects as behaviours of Miner",
         "QuickpassMC derives the clauses from the steps of a pass on all small problems; recorded histories must "
         "be behaviours of the Miner machine." + SAMPLED,
         [("bestEmbedding, initEmbedding, quickpassed", "state of the miner", PX)])

    prop("C12", "The search's chains stay sound under every operation",
         "Every operation of the search on its chains (set a chain, construct one from shortest paths, link, steal, "
         "trim, flip back, freeze and thaw, tear out) has exactly its documented effect, and whatever the sequence: a "
         "chain is a tree hanging from its root, reference counts equal the references, links of two variables are "
         "mutual and name nodes that the chains hold and that meet, and the fill of a target node is the number of "
         "chains on it.",
         ["inputs", "histories"],
         "all sequences of operations on the chains of an embedding, all source and target graphs, all domains",
         "Chains are internal state; the tests see the final lists, and a wrong reference count or link surfaces only "
         "after particular later operations.",
         [CH, EM], [("chain: data, links, steal, trim_branch", CH),
                    ("embedding: construct_chain, steal_all, flip_back, freeze_out, thaw_back", EM)],
         ["public methods of find_embedding::chain and find_embedding::embedding"],
         TLA + "ChainMC explores all sequences of the operations of ChainOps; recorded states of the code must be those "
         "of ChainOps",
         "ChainMC: all operation sequences up to a length on small problems keep the invariants. ChainJudge: after each "
         "operation of random histories the code's chains, links, counts and fills are those ChainOps computes." + SAMPLED,
         [("chain.data, chain.links, qub_weight", "chains of an embedding", CH)])

    prop("C13", "The priority queue always yields a least element",
         "Over every history of emplace, top, pop and reset the pairing queue holds exactly the emplaced and not yet "
         "popped elements, top is a least (greatest, for a max heap) of them, with ties broken by dirt, pop removes "
         "the one that top shows, and empty says whether there is none.",
         ["histories", "inputs"],
         "all histories of operations and all keys, with ties",
         "The tests never see the queue; a wrong order merely makes the embeddings worse, and lost elements depend on "
         "the shape of the heap.",
         [PQ], [("merge_roots, merge_pairs", PQ)], ["methods of find_embedding::pairing_queue"],
         TLA + "model checking of the pairing heap against a bag (PairingQueue), histories of the code against the bag",
         "PairingQueue: all histories over a pool of five nodes refine the bag. QueueJudge: recorded histories of the "
         "code are histories of the bag." + SAMPLED,
         [("root, mem", "the heap", PQ)])

    prop("C14", "Graphs decompose into their components, and labels translate both ways",
         "components(g, reserved) splits the nodes into the connected components, largest first, each with its "
         "reserved nodes last and counted; a component's graph has precisely the edges within it; into_component and "
         "from_component are inverse, and into_component refuses nodes that are not of the component; neighbour lists "
         "are sorted sets without loops that leave out edges into sources and out of sinks, relabelled and masked as "
         "asked.",
         ["inputs"],
         "all graphs with loops and parallel edges, all sets of reserved nodes, sources, sinks, labels and masks",
         "The search translates every node through these tables; the tests use connected targets, for which the "
         "translation is nearly trivial.",
         [GR], [("components", GR), ("input_graph::__get_neighbors", GR)],
         ["public methods of graph::components and graph::input_graph"],
         TLA + "model checking of union/find and the reserved-last partition (Components), recorded decompositions "
         "judged by ComponentsJudge",
         "Components: union/find in every order of the edges on all small graphs. ComponentsJudge: the definition, on "
         "the decompositions that the code returns." + SAMPLED,
         [("index, label, component", "tables of the decomposition", GR)])

    prop("C15", "The search's distances are shortest paths",
         "Whenever the search computes where to root a chain, for each placed neighbour the table of distances holds "
         "the lengths of shortest paths from its chain through nodes that both variables accept and that have room, "
         "with parents that realise them; a node's total is the sum over the neighbours, or infinite where the "
         "variable must not be rooted; node weights grow with the fill; and the chains that the search has laid are "
         "sound (C12) at each of these moments, serially and in parallel.",
         ["inputs", "schedules"],
         "all moments of all searches, on all problems, with fixed and restricted chains, with 1 and more threads",
         "Distances are never visible from outside; a wrong one shows as a slightly worse embedding.",
         [PF, EM, EP], [("compute_distances_from_chain, accumulate_distance", PF),
                        ("prepare_visited, prepare_distances, populate_weight_table", EP)],
         ["virtual prepare_root_distances of the pathfinders"],
         TLA + "the tables of recorded searches carry a shortest path certificate that SearchJudge checks; ChainMC for "
         "the chains",
         "SearchJudge: at every call of prepare_root_distances, local optimality of the distances (which implies "
         "shortest paths), the totals, and soundness of all chains." + SAMPLED,
         [("visited_list, parents, total_distance, qubit_weight", "tables of the search", PF)])

    prop("C16", "What the search says is what it does, and a signal stops it",
         "find_embedding announces its trials, passes and qualities in the order of its phases, truthfully (the announced "
         "quality is that of the answer, 'embedding found' is said if and only if one was), at three levels that verbose "
         "selects without influence on the answer, to the logger or, in interactive mode, to stdout; a signal (Ctrl-C) during the "
         "search ends it at the next poll: interactive mode announces the cancellation and returns the best "
         "embedding so far, otherwise KeyboardInterrupt is raised; the end of the time always returns the best "
         "so far; nothing else stops a search and no signal is lost.",
         ["inputs", "crash points", "configurations"],
         "all problems, parameters, verbosities and channels, and all moments at which the signal or the end of the time comes",
         "Tests look neither at the messages nor at interrupted searches; an interrupt can come at any poll of any phase.",
         [PF, EP, "minorminer/src/pyutil.hpp", PX],
         [("check_stops, check_improvement, heuristicEmbedding", PF), ("output_handler", EP),
          ("LocalInteractionPython, LocalInteractionLogger, handle_exceptions", "minorminer/src/pyutil.hpp"),
          ("wrap_logger", PX)],
         ["log records of minorminer._minorminer", "stdout in interactive mode", "return values and exceptions"],
         TLA + "TalkMC model checked (what is said determines the outcome; a signal is noticed at the next poll); "
         "recorded conversations checked against Talk by TalkJudge",
         "Talk refines the driver's specification by levels and polls that cannot be heard; TalkJudge runs the set of "
         "states that explain each recorded conversation." + SAMPLED)

    IB = "include/busclique/"
    BF = [BC, IB + "clique_cache.hpp", IB + "bundle_cache.hpp", IB + "find_clique.hpp", IB + "cell_cache.hpp",
          IB + "topo_cache.hpp"]

    prop("C20", "A reported clique embedding is a clique embedding",
         "Whenever find_clique_embedding, busgraph_cache.find_clique_embedding, largest_clique, "
         "largest_clique_by_chainlength or mine_clique_embeddings return chains for a Chimera, Pegasus or Zephyr graph "
         "of any size and tile, with any nodes and couplers missing, in any labelling, the chains are keyed by precisely "
         "the labels asked for and are nonempty, free of repetitions, connected in that graph, pairwise disjoint and "
         "pairwise joined by a coupler that the graph has; and the call ends with a reply for every such graph.",
         ["inputs", "configurations"],
         "all subgraphs of Chimera, Pegasus and Zephyr graphs, all labellings, all sizes and kinds of requests, all seeds",
         "The embedding is assembled from bit masks of lines in cells; the tests use a few (mostly perfect) graphs, while "
         "the code for missing couplers enumerates node covers and is random.",
         BF, [("clique_cache, clique_iterator", IB + "clique_cache.hpp"), ("bundle_cache", IB + "bundle_cache.hpp"),
              ("topo_cache: missing odd and internal couplers", IB + "topo_cache.hpp"),
              ("find_clique_embedding, _mine_clique_embeddings", BC)],
         ["return values of minorminer.busclique"],
         TLA + "answers for random defective topologies judged by BuscliqueJudge",
         "BuscliqueJudge is the definition of a clique embedding; it judges every size that a cache offers." + SAMPLED)

    prop("C21", "Biclique embeddings are valid, in every smaller shape, with no longer chains",
         "find_biclique_embedding(a, b) returns nothing or disjoint connected chains for precisely the labels asked for, "
         "every one of the first side joined to every one of the second by a coupler of the graph; if it finds one shape "
         "it finds every smaller one, with chains no longer; it accepts the sides in either order; "
         "largest_balanced_biclique is the largest k for which (k, k) is found; with one side empty there are as many "
         "single-node chains as the graph has nodes.",
         ["inputs", "configurations"],
         "all subgraphs of Chimera, Pegasus and Zephyr graphs, all labellings, all pairs of sizes",
         "Shapes are looked up in a table that is filled by rectangle; the tests ask for balanced ones in perfect graphs.",
         BF + [IB + "biclique_cache.hpp"],
         [("best_bicliques", IB + "find_biclique.hpp"), ("biclique_cache", IB + "biclique_cache.hpp"),
          ("busgraph_cache.find_biclique_embedding, _keep_biclique_key", BC)],
         ["return values of busgraph_cache.find_biclique_embedding and largest_balanced_biclique"],
         TLA + "answers for random defective topologies judged one by one and among each other by BuscliqueJudge",
         "BuscliqueJudge: definition of a biclique embedding, and dominance between the shapes that were asked for." +
         SAMPLED)

    prop("C22", "The answers of one clique cache agree",
         "For one graph and seed: a clique is found for every size up to that of the largest, and for none beyond; a "
         "smaller clique never has longer chains than a larger one; largest_clique_by_chainlength(L) has chains of at "
         "most L and is as large as any size that can be had with such chains; another object that reads the file gives "
         "the same chains; and use_cache=False finds a clique exactly if the cache does, when no couplers are missing.",
         ["inputs", "histories"],
         "all subgraphs of the topologies, all sizes and chain lengths, with and without the file",
         "The lookups go through dictionaries by size and by length with gaps; the tests ask for the largest.",
         [BC], [("busgraph_cache.find_clique_embedding, largest_clique_by_chainlength", BC),
                ("_make_clique_cache", BC)],
         ["return values of busgraph_cache"],
         TLA + "answers of one cache judged among each other by BuscliqueJudge",
         "BuscliqueJudge: the laws of lookup, on all sizes and lengths of recorded caches." + SAMPLED,
         [("_cliques", "cached cliques", BC)])

    prop("C25", "A topology's identifier tells graphs apart, and only graphs",
         "busgraph_cache.topology_identifier is the same for graphs of the same family, dimensions, nodes, couplers and "
         "seed, in whatever labelling and order they are given, and differs for graphs of a family that differ in nodes "
         "or couplers other than odd ones; and whatever graphs (odd couplers, dimensions, seeds) share a cache directory, "
         "a cached embedding is only ever used for the graph it was made for, and is valid in it.",
         ["inputs", "histories"],
         "all pairs of subgraphs of a topology, all labellings, orders and seeds",
         "Two graphs that collide differ in a particular coupler or dimension; a test compares a pair or two, and the "
         "damage is an invalid embedding of another graph.",
         [BC, IB + "topo_cache.hpp"],
         [("topo_cache::compute_identifier", IB + "topo_cache.hpp"), ("_chimera_busgraph, _pegasus_busgraph, _zephyr_busgraph", BC)],
         ["busgraph_cache.topology_identifier", "embeddings of a graph whose cache directory holds those of similar graphs"],
         TLA + "identifiers of families of similar graphs judged by IdentityJudge; embeddings by BuscliqueJudge",
         "IdentityJudge: a function of the canonical description, and an injective one. Embeddings for graphs that share "
         "a cache directory are valid." + SAMPLED)

    prop("C26", "Cliques and bicliques are a function of graph and seed",
         "For a given graph and seed the answers of busclique are the same from a fresh cache, from its file, from an "
         "object that has answered other questions, after other caches and seeds were used, in another process with "
         "another hash seed, in another labelling (translated), and, without the cache, given the seed or the state of "
         "python's random; the graph is not modified.",
         ["histories", "inputs"],
         "all histories of questions to any number of objects and processes",
         "The state of the topology object is shared by the searches; a dependence on history shows only with missing "
         "couplers and in a particular order of questions.",
         [BC, IB + "topo_cache.hpp"], [("topo_cache::reset, next", IB + "topo_cache.hpp"), ("seeding", BC)],
         ["return values of minorminer.busclique"],
         TLA + "histories of questions judged by ReplayJudge (one reply per question)",
         "Replay admits one reply per question; questions are asked from fresh and old objects, files, processes, "
         "labellings." + SAMPLED)

    prop("C23", "The clique cache keeps the best embedding of each size",
         "A busgraph_cache is the state machine of CliqueCache over every history of opening, asking, inserting "
         "(directly or not), updating, merging, writing and mining: a clique that is inserted is offered in each of its "
         "sizes (shortest chains first) where nothing at least as good, by the given quality, is there already; merging "
         "takes over precisely what is better, loses nothing, is idempotent and keeps the old embedding on ties; an "
         "update stores exactly what get_clique_cache gave, in each of its formats and for each labelling; what is "
         "written is what another object reads; and mining never makes the cache on disk worse.",
         ["histories", "inputs", "configurations"],
         "all histories of operations on any number of objects of a graph, all quality functions, formats and labellings",
         "The tables by size and by length have gaps and shared entries after merges; the tests insert one embedding and "
         "read it back.",
         [BC], [("busgraph_cache.merge_clique_cache, insert_clique_embedding, update_clique_cache, get_clique_cache", BC),
                ("mine_clique_embeddings", BC)],
         ["methods of busgraph_cache", "mine_clique_embeddings"],
         TLA + "model checking of the cache as an abstract data type (CliqueCacheMC), recorded histories judged as "
         "behaviours of it (CliqueCacheJudge)",
         "CliqueCacheMC: the laws of merging on all short histories. CliqueCacheJudge: replies are those of the state "
         "machine, object by object and through the disk." + SAMPLED,
         [("_cliques: raw, size, length", "the cache in memory", BC)])

    prop("C24", "The cache directory survives crashes and races",
         "However many processes and threads use the cache directory, and whenever any of them dies: every operation on a "
         "graph's entry takes effect at one moment between its beginning and its end (an entry is what was computed, "
         "until something is stored), also when graphs share a file; a process that dies has stored everything or "
         "nothing; whoever comes later is answered, without an exception; and there are never more than 100 cache files "
         "(but for one per crash), those used most recently.",
         ["schedules", "crash points", "histories"],
         "all interleavings of processes and threads at their file system operations, all crash points, all histories of "
         "use over any number of graphs",
         "Races and crashes need a particular moment; the tests run one process that ends well.",
         [BC], [("busgraph_cache._fetch_cache, copy_on_close_context", BC)],
         ["replies of busgraph_cache objects in several processes and threads", "names of the files in the cache directory"],
         TLA + "model checking of the protocol with crashes (FileCacheMC: safety and termination); recorded histories with "
         "controlled preemption and crashes at every file operation must be serialisable (FileCacheJudge)",
         "FileCacheMC: all interleavings of two processes with crashes over files shared by keys, with eviction. The real "
         "code is held, or killed, before each of its file and lock operations in turn (audit events), while other "
         "processes or threads run: all single preemptions and crash points of the sampled scenarios; crashes inside a "
         "write system call are not produced." + SAMPLED,
         [(".lock, .lru, cache files", "the directory", BC)])

    LY, PL = "minorminer/layout/layout.py", "minorminer/layout/placement.py"
    DG, FS, PE = "minorminer/utils/diagnostic.py", "minorminer/utils/feasibility.py", "minorminer/utils/parallel_embeddings.py"
    PO = "minorminer/utils/polynomialembedder.py"

    prop("C27", "Every native clique and biclique of the lattice is found",
         "On a Chimera, Pegasus or Zephyr graph with any nodes and any couplers missing (of the couplers between crossing "
         "qubits, up to six): for every rectangle of the lattice, if a tracks run intact through its columns and b "
         "through its rows, then find_biclique_embedding finds that shape and every smaller one, with chains no longer "
         "than the rectangle's; and for every arrangement of crossing ells (a stretch of a column and one of a row, "
         "the rows growing one by one while the columns dwindle), largest_clique is at least as large as the "
         "arrangement's intact tracks make, as is largest_clique_by_chainlength(L) for arrangements of a width whose ells "
         "are never longer than L (in Pegasus: for the ells no longer than L of any arrangement).",
         ["inputs", "configurations"],
         "all lattices, all sets of missing nodes and couplers, all rectangles and all arrangements of ells",
         "What is native depends on which qubits and couplers are missing, in exponentially many combinations; tests know "
         "the sizes for perfect lattices and compare a few others with nothing.",
         ["include/busclique/clique_cache.hpp", "include/busclique/biclique_cache.hpp",
          "include/busclique/bundle_cache.hpp", "include/busclique/cell_cache.hpp", "include/busclique/topo_cache.hpp",
          "include/busclique/util.hpp", BC],
         [("extend_cache, process_cliques, compute_cache", "include/busclique/clique_cache.hpp"),
          ("biclique_cache, biclique_yield_cache", "include/busclique/biclique_cache.hpp"),
          ("compute_line_masks", "include/busclique/bundle_cache.hpp"),
          ("process_nodes, process_edges, finish_badmask", "include/busclique/util.hpp"),
          ("compute_bad_edges, next", "include/busclique/topo_cache.hpp"), ("_make_clique_cache, best_bicliques", BC)],
         ["sizes and chain lengths of the cliques and bicliques of busgraph_cache"],
         TLA + "module Native specifies the lattices and what is native to them; NativeMC checks that native arrangements "
         "are cliques and bicliques and that the tables find the best of them; NativeJudge compares the real sizes",
         "NativeMC: small Chimera and Zephyr lattices with every node and coupler missing in turn. NativeJudge: sizes found "
         "on random defective graphs (up to three crossings uncoupled, all their covers tried) against the best native "
         "arrangement." + SAMPLED)

    prop("C30", "Layouts are where they were asked to be and keep their shape",
         "A Layout has the dimension, center and scale (half the longest side) it was created with or was last told; "
         "moving and scaling it change nothing else (it stays similar to what it was), raising the dimension pads with "
         "zeros, assignments to nodes, layout and layout_array are seen through every one of them, arguments are never "
         "modified and nothing is NaN. graph_layout spans [center - scale, center + scale] with nodes apart; p_norm "
         "returns a layout whose distances match the given (or path) distances no worse than its starting layout does, "
         "at a stationary point; packed components do not overlap.",
         ["inputs", "histories", "configurations"],
         "all graphs and point sets, dimensions, centers, scales and distances, all histories of assignments",
         "Layouts are read back through several attributes after any history; the tests construct a few and compare "
         "centers.",
         [LY], [("Layout, graph_layout, p_norm, _center_layout, _scale_layout, rpack packing", LY)],
         ["Layout objects", "results of p_norm and graph_layout"],
         TLA + "model checking of a layout's operations (LayoutsMC), histories of Layout objects judged as behaviours of "
         "Layouts",
         "LayoutsMC: all histories of centering, scaling, padding and assigning on a small grid preserve what was asked. "
         "Recorded layouts in integer units judged by LayoutsJudge; the optimum of p_norm is judged as a stationary point, "
         "not as a global minimum." + SAMPLED,
         [("layout, layout_array, dim, center, scale", "a Layout object", LY)])

    prop("C31", "diagnose_embedding names precisely the faults of an embedding",
         "For every map from source nodes to sets of labels, source and target graph (as graphs or edge lists): "
         "diagnose_embedding yields every missing chain, foreign node, disconnected chain and missing edge, names all "
         "variables of every shared qubit, and yields nothing that is not so; is_valid_embedding is true exactly if it "
         "yields nothing; verify_embedding raises the error that belongs to a fault unless its class is ignored.",
         ["inputs"], "all maps, graphs and ways of giving them",
         "The verdict has to be exact for every combination of faults; the tests try one of each kind.",
         [DG], [("diagnose_embedding, is_valid_embedding, verify_embedding", DG)],
         ["diagnose_embedding", "is_valid_embedding", "verify_embedding"],
         TLA + "model checking of the set of faults against the definition of a minor embedding and of the lister "
         "(DiagnoseMC), diagnoses judged by Diagnose",
         "DiagnoseMC: on all small graphs and maps there are no faults exactly for minor embeddings, and the algorithm "
         "lists the faults. UtilsJudge: the errors of the real code are the faults." + SAMPLED)

    prop("C32", "The feasibility filter never refuses what can be embedded",
         "embedding_feasibility_filter is True whenever the source is a minor of the target (with one_to_one: a subgraph), "
         "and False if the source has more nodes or edges than the target or (one_to_one) its degrees cannot be matched.",
         ["inputs"], "all pairs of graphs that have an embedding",
         "A filter that is wrong on one pair silently drops solvable problems; tests cannot enumerate the pairs.",
         [FS], [("embedding_feasibility_filter", FS)], ["embedding_feasibility_filter"],
         TLA + "all minors of all graphs with four nodes, generated by TLC from MinorOps, replayed into the filter; larger "
         "planted embeddings",
         "The vectors are all states that MinorOps reaches (deleting and contracting), each with the embedding as a "
         "witness; planted embeddings with up to twenty nodes on top." + SAMPLED)

    prop("C33", "The lattice size bound is a bound, and bad arguments are refused",
         "lattice_size_lower_bound is at most the size of every chimera, pegasus or zephyr lattice (of the given tile) that "
         "the source can be embedded in, with or without chains, also if the target has defects; lattices of the returned "
         "size have at least as many nodes and edges as the source; unusable or inconsistent T, topology and t raise "
         "ValueError.",
         ["inputs", "configurations"], "all embeddable sources, families, sizes and tiles",
         "The bound must hold for every source; tests compare it for a few lattices.",
         [FS], [("lattice_size_lower_bound", FS)], ["lattice_size_lower_bound"],
         TLA + "recorded bounds judged by UtilsJudge against planted embeddings (witnesses checked by MinorEmbedding)",
         "The embeddings that contradict a bound are planted in lattices of known size and checked by TLC." + SAMPLED)

    prop("C34", "The legacy clique and biclique finders answer with valid embeddings",
         "utils.find_clique_embedding and find_biclique_embedding of pegasus, chimera and zephyr graphs (with and without "
         "missing qubits and couplers, in any labelling) return embeddings of the complete (bipartite) graph on the "
         "requested labels, or raise ValueError where there is none that they have to find; the polynomial embedder's processor "
         "returns native cliques and bicliques whose chains are connected, disjoint and coupled, of the promised sizes, "
         "for any defects.",
         ["inputs", "configurations"], "all chip graphs with defects, sizes, labels and families",
         "Defects make the cell-by-cell bookkeeping fail in corners no sampled chip has.",
         [PO, "minorminer/utils/zephyr.py", "minorminer/utils/pegasus.py", "minorminer/utils/chimera.py"],
         [("processor, eden_processor", PO), ("find_clique_embedding", "minorminer/utils/pegasus.py")],
         ["minorminer.utils.*.find_*_embedding", "polynomialembedder.processor"],
         TLA + "recorded embeddings judged by MinorEmbedding", "Every embedding judged by the definition; sizes by what the "
         "perfect lattice has." + SAMPLED)

    prop("C35", "Packed rectangles do not overlap",
         "rpack.pack places every rectangle, at positions that are not negative and no two overlapping, inside of the "
         "requested maximal width and height or raises; bbox_size is the enclosing size; packing_density and "
         "overlapping tell the truth; the order of the positions is that of the sizes.",
         ["inputs"], "all lists of sizes and limits",
         "The grid of cells splits differently for every sequence of sizes; tests hold a few.",
         ["minorminer/_extern/rpack/src/rpackcore.c", "minorminer/_extern/rpack/_core.pyx"],
         [("grid_split, grid_find_region", "minorminer/_extern/rpack/src/rpackcore.c"), ("pack", "minorminer/_extern/rpack/_core.pyx")],
         ["rpack.pack, bbox_size, overlapping, packing_density"],
         TLA + "recorded packings judged by UtilsJudge", "Boxes pairwise apart and enclosed." + SAMPLED)

    prop("C36", "Parallel embeddings are valid, disjoint and as many as allowed",
         "find_multiple_embeddings and find_sublattice_embeddings return embeddings of the source in the target, disjoint, "
         "no more than max_num_emb and as many as fit, one-to-one if asked, within displaced images of the tile (or equal "
         "to the tile's embedding, if one is given); with an embedder that finds what there is nothing is left over; "
         "options reach the embedder, a seed makes the answer repeatable, graphs are not modified; "
         "array_to_embeddings and embeddings_to_array invert each other.",
         ["inputs", "configurations"], "all sources, targets, tiles, limits and embedders",
         "Each further embedding depends on what is taken; tests check a handful of regular problems.",
         [PE], [("find_multiple_embeddings, find_sublattice_embeddings, array_to_embeddings, embeddings_to_array", PE)],
         ["results of the functions"],
         TLA + "recorded lists of embeddings judged by UtilsJudge; maximality by exact search in TLA+",
         "Validity and disjointness by definition; with one-to-one embedders, that nothing is left over is decided by "
         "exhaustive search (Extends) in the judge; chains are not searched exhaustively." + SAMPLED)

    prop("C37", "Placements follow the layouts and the search follows the placement",
         "closest maps each node to a connected set of target nodes, of the allowed size, that no more than num_neighbors "
         "others are closer than (the closest, with one neighbor; of those looked at, none that is both less crowded by what is "
         "placed already and nearer); a Placement keeps what is assigned to it; intersection maps each node to the qubits that cross "
         "nearest to its place; layout.find_embedding is minorminer.find_embedding with the placement of the layouts that were "
         "asked for as initial, suspended chains, its answer is valid, and a suspended variable's chain meets its placement; "
         "illegal arguments are refused and arguments not modified.",
         ["inputs", "configurations"], "all pairs of graphs and layouts, all options",
         "Distances, ties and fallbacks come up in combinations of graphs and layouts that tests do not list.",
         [PL, "minorminer/layout/__init__.py"],
         [("closest, intersection", PL), ("find_embedding", "minorminer/layout/__init__.py")],
         ["Placement objects", "minorminer.layout.find_embedding"],
         TLA + "recorded placements judged by LayoutsJudge, which ranks all candidate subsets; searches by replay",
         "The judge enumerates connected subsets and compares exact distances; grid crossings computed from coordinates." + SAMPLED)
