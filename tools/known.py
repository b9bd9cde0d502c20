"""Writes KNOWN_FINDINGS from the fix commits of /repo (hashes change when they are rebased)."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = {
 "allocate one qubit permutation": ("C10", "several fixed chains made the search index past the end of its permutations (crash)"),
 "do not start Steiner paths": ("C04", "restrict_chains could send the search into an infinite loop"),
 "root the chains of the improvement": ("C04", "the chain length phase rooted chains outside of their domain"),
 "count a repeated qubit": ("C01", "an initial chain that repeats a qubit gave overlapping or oversized chains"),
 "initial chains respect": ("C03", "initial_chains could put fixed qubits, or qubits outside the domain, into chains"),
 "report every C++ exception": ("C10", "C++ exceptions that were not std::runtime_error ended the process"),
 "return_overlap yields a pair": ("C02", "an empty source graph gave a bare dict although return_overlap was set"),
 "consume the line masks": ("C20", "inflating some cells never ended"),
 "keep the biclique with": ("C21", "best_bicliques kept the biclique of the last mask, not the shortest"),
 "move the cache files into place": ("C24", "cache files were renamed into place after the locks were released"),
 "evicting a cache file": ("C24", "a crash during eviction made every later eviction fail"),
 "a dense clique cache": ("C23", "get_clique_cache(sparse=False) dropped the largest clique"),
 "largest_clique_by_chainlength": ("C22", "largest_clique_by_chainlength raised KeyError on caches with gaps"),
 "largest_clique_by_chainlength beyond": ("C22", "largest_clique_by_chainlength(L) gave no clique at all for an L above the longest chain"),
 "compare the maximum chain lengths": ("C23", "merging caches compared the wrong chain lengths"),
 "bicliques of every shape": ("C21", "find_biclique_embedding missed shapes and returned unusable one-sided bicliques"),
 "lattice_size_lower_bound on minor embeddings": ("C33", "the bound was None for graphs that are minors of the lattice"),
 "find_sublattice_embeddings hands": ("C36", "options were not handed on to the embedder"),
 "array_to_embeddings": ("C36", "square arrays were transposed"),
 "translate the variable order": ("C11", "quickpass with a variable order and fixed chains used wrong variables"),
 "the default heuristic_bound": ("C20", "mine_clique_embeddings raised on chimera graphs by default"),
 "return what there is": ("C07", "a search stopped during initialization returned empty chains"),
 "a stopped search stops": ("C07", "an interrupt in interactive mode ended one trial only"),
 "quickpass falls back": ("C10", "quickpass(local_search=True) crashed on chains that are not linked, and did nothing from scratch"),
 "documented default of chainlength_patience": ("C06", "miner(...).find_embedding() was not equivalent to find_embedding(...): chainlength_patience was 2, not 10"),
 "VARORDER_KEEP refuses": ("C11", "VARORDER_KEEP without an ordering replaced one variable's chain over and over"),
 "a quickpass that was refused": ("C11", "after a refused first quickpass, clear_first=False worked without the fixed chains"),
 "coordinates of a zephyr graph": ("C20", "coordinates of zephyr graphs with t != 4 were translated wrongly (crash)"),
 "no ells of width one": ("C20", "find_clique_embedding(n, g, use_cache=False) aborted the process where no cell has room for a small n"),
 "without a seed, the clique search": ("C26", "find_clique_embedding(use_cache=False) drew its seed from os.urandom, not from python's random state"),
 "resetting a topology": ("C26", "the cliques of a seed depended on whether bicliques had been computed before"),
 "odd couplers, dimensions or seed": ("C25", "graphs that differ in odd couplers shared a cache, and short cliques used missing couplers; pegasus caches ignored the seed"),
 "update a clique cache of": ("C23", "update_clique_cache(get_clique_cache()) raised TypeError on graphs with coordinate labels"),
 "starts from the cache on disk": ("C23", "mine_clique_embeddings threw away the cliques of the cache on disk that it promises to augment"),
 "documented default quality": ("C23", "mine_clique_embeddings without a quality function never kept a regularized clique of the polynomial phase"),
 "make the cache directory at once": ("C24", "two processes or threads that used an empty cache directory at once failed with FileExistsError"),
 "respect max_fill": ("C09", "paths to a fixed chain could enter qubits that are already full"),
 "intersection on a grid of one point": ("C37", "intersection raised on a grid with one point"),
 "Layout of a graph without nodes": ("C30", "Layout of a graph without nodes raised when given a scale"),
 "find_embedding of a source graph without nodes": ("C37", "layout.find_embedding raised on a source graph without nodes"),
 "lattice_size_lower_bound of a graph": ("C33", "lattice_size_lower_bound raised on a graph without nodes"),
 "lattice_size_lower_bound refuses a t": ("C33", "a t that is not the tile of T was used silently, and the bound wrong"),
 "largestNativeClique": ("C34", "largestNativeClique raised where there is no clique of some width"),
 "max_num_emb = 0 tile": ("C36", "find_sublattice_embeddings returned an embedding although max_num_emb was 0"),
 "keeps layout_array in step": ("C30", "assigning to a node of a layout left layout_array behind"),
 "takes its dimension from a center": ("C30", "Layout of a given layout ignored the dimension of the center (or raised)"),
 "nodes on a line or at a point": ("C30", "graph_layout was NaN where nodes have one coordinate in common"),
 "layout of a single point": ("C30", "scaling a layout of one point gave NaN"),
 "keeps to the lower bound": ("C37", "closest used subsets smaller than asked for"),
 "more neighbors than there are": ("C37", "closest raised when num_neighbors was more than the subsets"),
 "uses the layout that is given": ("C37", "layout.find_embedding ignored the layout given for a D-Wave target"),
 "accepts edges for the target": ("C37", "layout.find_embedding raised when the target was a list of edges"),
 "p_norm pairs": ("C30", "p_norm optimized the distances of other pairs of nodes"),
}
EXTRA = os.path.join(HERE, "tools", "known_extra.txt")
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"],
                     capture_output=True, text=True, check=True).stdout
with open(os.path.join(HERE, "KNOWN_FINDINGS"), "w") as fh:
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if s.startswith("fix: "):
            k = [k for k in FIX if k in s]
            assert k, s
            k = [max(k, key=len)]
            fh.write("fixed: property=%s %s %s\n" % (FIX[k[0]][0], h, FIX[k[0]][1]))
    if os.path.exists(EXTRA):
        with open(EXTRA) as e:
            fh.write(e.read())
