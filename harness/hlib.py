"""What the Python harnesses share: reproducible random problems, encoding of graphs and
results as rows for the TLA+ judges, and the per-case protocol with the runner
(lib/vlib.run_cases).  Nothing in here decides anything."""

import json
import os
import random
import sys
import traceback

import networkx as nx


def rng_for(*key):
    return random.Random("/".join(map(str, key)))


# ------------------------------------------------------------------ the case loop

def main(profiles):
    """argv: OUT PROFILE SHARD NSHARDS START END  -- runs cases START..END-1 that belong
    to the shard; writes one {"begin": k} line before and the rows of the case after."""
    out, profile, shard, nshards, start, end = sys.argv[1:7]
    shard, nshards, start, end = int(shard), int(nshards), int(start), int(end)
    seed = os.environ.get("VERIF_SEED", "1")
    fn = profiles[profile]
    with open(out, "a") as fh:
        for k in range(start, end):
            if k % nshards != shard:
                continue
            fh.write(json.dumps({"begin": k}) + "\n")
            fh.flush()
            try:
                for row in fn(rng_for(seed, profile, k), k):
                    row["case"] = k
                    fh.write(json.dumps(row, separators=(",", ":"), default=int) + "\n")
            except Exception:           # the code under test let the harness down
                fh.write(json.dumps({"case": k, "error": traceback.format_exc()[-1500:]})
                         + "\n")
            fh.flush()
        fh.write(json.dumps({"end": 1}) + "\n")


# ------------------------------------------------------------------ graphs

def source_graph(rng, hi=10):
    kind = rng.choice(["path", "cycle", "clique", "bip", "grid", "tree", "gnp", "gnp",
                       "multi", "star", "regular", "edge", "isolated", "node"])
    n = rng.randint(3, hi)
    if kind == "path":
        g = nx.path_graph(n)
    elif kind == "cycle":
        g = nx.cycle_graph(n)
    elif kind == "clique":
        g = nx.complete_graph(rng.randint(2, max(2, min(6, hi))))
    elif kind == "bip":
        g = nx.complete_bipartite_graph(rng.randint(1, 4), rng.randint(1, 4))
    elif kind == "grid":
        g = nx.grid_2d_graph(rng.randint(2, 3), rng.randint(2, 3))
    elif kind == "tree":
        g = nx.Graph()
        g.add_node(0)
        for i in range(1, n):
            g.add_edge(i, rng.randrange(i))
    elif kind == "gnp":
        g = nx.gnp_random_graph(n, rng.choice([.2, .3, .5]), seed=rng.randrange(10**6))
    elif kind == "multi":
        g = nx.disjoint_union(nx.cycle_graph(rng.randint(3, 4)),
                              nx.path_graph(rng.randint(1, 3)))
        if rng.random() < .5:
            g = nx.disjoint_union(g, nx.complete_graph(rng.randint(1, 3)))
    elif kind == "star":
        g = nx.star_graph(rng.randint(2, hi - 1))
    elif kind == "regular":
        g = nx.random_regular_graph(3, rng.choice([4, 6, 8]), seed=rng.randrange(10**6))
    elif kind == "edge":
        g = nx.path_graph(2)
    elif kind == "isolated":
        g = nx.gnp_random_graph(max(2, n - 2), .4, seed=rng.randrange(10**6))
        g.add_nodes_from(("iso", i) for i in range(rng.randint(1, 2)))
    else:
        g = nx.Graph()
        g.add_node(0)
    g = nx.convert_node_labels_to_integers(g)
    if rng.random() < .15 and len(g):
        v = rng.choice(sorted(g))
        g.add_edge(v, v)
    return g


_dg = None


def dw():
    global _dg
    if _dg is None:
        import dwave.graphs
        _dg = dwave.graphs
    return _dg


def target_graph(rng, small=False):
    kind = rng.choice(["chimera", "chimera", "pegasus", "zephyr", "grid", "regular",
                       "gnp", "disc", "complete", "cycle", "king"])
    if small:
        kind = rng.choice(["grid", "regular", "gnp", "disc", "complete", "cycle", "king"])
    if kind == "chimera":
        g = dw().chimera_graph(rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4))
    elif kind == "pegasus":
        g = dw().pegasus_graph(2)
    elif kind == "zephyr":
        g = dw().zephyr_graph(rng.randint(1, 2), rng.choice([1, 2]))
    elif kind == "grid":
        g = nx.grid_2d_graph(rng.randint(2, 6), rng.randint(3, 6))
    elif kind == "regular":
        g = nx.random_regular_graph(rng.choice([3, 4, 5]), rng.choice([10, 16, 24]),
                                    seed=rng.randrange(10**6))
    elif kind == "gnp":
        g = nx.gnp_random_graph(rng.randint(4, 20), rng.choice([.2, .4]),
                                seed=rng.randrange(10**6))
    elif kind == "disc":
        g = nx.disjoint_union(nx.grid_2d_graph(3, rng.randint(3, 4)),
                              nx.complete_graph(rng.randint(2, 5)))
    elif kind == "complete":
        g = nx.complete_graph(rng.randint(2, 10))
    elif kind == "cycle":
        g = nx.cycle_graph(rng.randint(3, 15))
    else:
        g = nx.strong_product(nx.path_graph(rng.randint(2, 4)), nx.path_graph(rng.randint(3, 5)))
    g = nx.Graph(g)
    if rng.random() < .4 and len(g) > 6:
        for v in rng.sample(sorted(g, key=repr), rng.randint(1, len(g) // 6)):
            g.remove_node(v)
        if g.number_of_edges() > 6:
            for e in rng.sample(sorted(g.edges(), key=repr), rng.randint(0, 3)):
                g.remove_edge(*e)
    g.graph.clear()
    g = nx.convert_node_labels_to_integers(g)
    if rng.random() < .1 and len(g):
        g.add_edge(0, 0)
    return g


def relabel(rng, g):
    """Give the nodes of g labels of some kind (also labels that compare or hash alike
    across graphs, or that cannot be ordered among each other)."""
    kind = rng.choice(["int", "int", "shift", "str", "tuple", "mixed", "perm", "frozen"])
    nodes = sorted(g)
    if kind == "int":
        return g
    if kind == "shift":
        m = {v: v * 7 + 1000 for v in nodes}
    elif kind == "str":
        m = {v: "x%d" % v for v in nodes}
    elif kind == "tuple":
        m = {v: (v // 3, v % 3, "q") for v in nodes}
    elif kind == "mixed":
        m = {v: [v, "s%d" % v, (v,), -v - 5, frozenset([v, -1])][v % 5] for v in nodes}
    elif kind == "frozen":
        m = {v: frozenset([v, "f"]) for v in nodes}
    else:
        p = nodes[:]
        rng.shuffle(p)
        m = dict(zip(nodes, p))
    order = nodes[:]
    rng.shuffle(order)
    h = nx.Graph()
    h.add_nodes_from(m[v] for v in order)
    h.add_edges_from((m[a], m[b]) for a, b in g.edges())
    return h


def as_input(rng, g):
    """A form in which find_embedding takes a graph: a networkx graph, or an iterable of
    pairs when no node would be lost.  Returns (input, nodes that the input mentions)."""
    touched = {v for e in g.edges() for v in e}
    form = rng.choice(["nx", "nx", "list", "multi", "iter", "loops"])
    if form == "nx" or (form != "loops" and len(touched) < len(g)) or not len(g):
        return g, list(g)
    es = [(b, a) if rng.random() < .5 else (a, b) for a, b in g.edges()]
    if form == "multi":
        es += [(b, a) for a, b in rng.sample(es, len(es) // 2)]
    if form == "loops":     # isolated nodes by loops
        es += [(v, v) for v in g if v not in touched or rng.random() < .1]
    rng.shuffle(es)
    order = []
    for e in es:
        for v in e:
            if v not in order:
                order.append(v)
    return (iter(es) if form == "iter" else es), order


# ------------------------------------------------------------------ rows

class Ids:
    """labels <-> ids 1..n; an unknown label is 0"""

    def __init__(self, nodes):
        self.nodes = list(nodes)
        self.id = {v: i + 1 for i, v in enumerate(self.nodes)}

    def __getitem__(self, v):
        try:
            return self.id.get(v, 0)
        except TypeError:
            return 0

    def __len__(self):
        return len(self.nodes)


def enc_edges(g, ids):
    return [[ids[a], ids[b]] for a, b in g.edges()]


def enc_adj(g, ids):
    return [[ids[w] for w in g[v]] for v in ids.nodes]


def enc_emb(emb, sid, tid):
    """An embedding as [[source id, [target ids]]...] in the dict's own order."""
    out = []
    for v, c in emb.items():
        out.append([sid[v], [tid[q] for q in c]])
    return out


def enc_map(m, sid, tid):
    return [[sid[v], [tid[q] for q in c]] for v, c in m.items()]
