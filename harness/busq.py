"""busclique: cliques and bicliques of random Chimera, Pegasus and Zephyr graphs with
missing nodes and couplers, in every labelling, with and without the cache
(spec/BuscliqueJudge)."""

import json
import os
import shutil

import hlib
from hlib import Ids, enc_adj

import minorminer.busclique as bc


class fresh_cache:
    """a cache directory of its own"""

    def __init__(self, k):
        self.base = os.environ["XDG_DATA_HOME"]
        self.dir = os.path.join(self.base, "c%d-%d" % (os.getpid(), k))

    def __enter__(self):
        os.makedirs(self.dir)
        os.environ["XDG_DATA_HOME"] = self.dir
        return self.dir

    def __exit__(self, *a):
        os.environ["XDG_DATA_HOME"] = self.base
        shutil.rmtree(self.dir, ignore_errors=True)


def make(family, dims, labels, nodes=None, edges=None):
    dg = hlib.dw()
    kw = {}
    if nodes is not None:
        kw = dict(node_list=nodes, edge_list=edges)
    if labels == "coordinate":
        kw["coordinates"] = True
    if labels == "nice":
        kw["nice_coordinates"] = True
    if family == "pegasus":
        return dg.pegasus_graph(dims[0], **kw, **({"offsets_index": dims[1]} if len(dims) > 1 else {}))
    return (dg.chimera_graph if family == "chimera" else dg.zephyr_graph)(*dims, **kw)


def converters(family, dims, labels):
    """from labels to ints, and from ints to labels, on nodes"""
    dg = hlib.dw()
    if labels == "int":
        return (lambda v: v), (lambda v: v)
    if family == "chimera":
        c = dg.chimera_coordinates(*dims)
        return c.chimera_to_linear, c.linear_to_chimera
    if family == "zephyr":
        c = dg.zephyr_coordinates(*dims)
        return c.zephyr_to_linear, c.linear_to_zephyr
    c = dg.pegasus_coordinates(dims[0])
    if labels == "nice":
        return c.nice_to_linear, c.linear_to_nice
    return c.pegasus_to_linear, c.linear_to_pegasus


def other_labels(family, dims, labels, nodes, edges, new):
    back, _ = converters(family, dims, labels)
    _, to = converters(family, dims, new)
    f = lambda v: to(back(v))       # noqa: E731
    return [f(v) for v in nodes], [(f(a), f(b)) for a, b in edges]


LABELS = {"chimera": ["int", "coordinate"], "zephyr": ["int", "coordinate"],
          "pegasus": ["int", "coordinate", "nice"]}


def topology(rng, big=False):
    family = rng.choice(["chimera", "chimera", "pegasus", "zephyr"])
    if family == "chimera":
        dims = (rng.randint(1, 4), rng.randint(1, 4), rng.choice([1, 2, 3, 4, 4, 4, 5, 8]))
        if dims[2] > 5:
            dims = (rng.randint(1, 2), rng.randint(1, 3), 8)
        labels = rng.choice(["int", "coordinate"])
    elif family == "pegasus":
        dims = (rng.choice([2, 2, 3, 3, 4] if big else [2, 2, 3]),)
        labels = rng.choice(["int", "coordinate", "nice"])
    else:
        dims = (rng.choice([1, 1, 2, 2, 3] if big else [1, 1, 2]), rng.choice([1, 2, 2, 3, 4, 4]))
        if not big and dims[0] == 2:
            dims = (2, min(dims[1], 2))
        labels = rng.choice(["int", "coordinate"])
    return family, dims, labels


def defects(rng, g):
    """(nodes, edges, kind) of a defective copy"""
    nodes, edges = list(g.nodes()), list(g.edges())
    kind = rng.choice(["none", "nodes", "nodes", "edges", "both", "both", "many", "sparse", "shuffled"])
    if kind == "none":
        return nodes, edges, kind
    pn = {"nodes": .05, "edges": 0, "both": .04, "many": .25, "sparse": .7, "shuffled": 0}[kind]
    pe = {"nodes": 0, "edges": .03, "both": .02, "many": .15, "sparse": .3, "shuffled": 0}[kind]
    keep = [v for v in nodes if rng.random() >= pn] or nodes[:1]
    ks = set(keep)
    # few missing couplers give all covers, many a sample of them
    if kind in ("edges", "both") and rng.random() < .5:
        pe = min(3.0 / (len(edges) or 1), .5)
    es = [e for e in edges if e[0] in ks and e[1] in ks and rng.random() >= pe]
    if kind == "shuffled" or rng.random() < .3:
        rng.shuffle(keep)
        rng.shuffle(es)
        es = [(b, a) if rng.random() < .5 else (a, b) for a, b in es]
    return keep, es, kind


def graph(rng, big=False):
    family, dims, labels = topology(rng, big)
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    g = make(family, dims, labels, nodes, edges)
    return family, dims, labels, kind, g


def wanted(rng, n, tag):
    """n as a number, or as some iterable of n labels"""
    kind = rng.choice(["int", "int", "list", "tuple", "str", "iter", "range"])
    if kind == "int":
        return n, None
    if kind == "range":
        return range(5, 5 + n), list(range(5, 5 + n))
    names = [(tag, i) if kind == "tuple" else "%s%d" % (tag, i) if kind == "str" else i * 3 + (100 if tag == "b" else 0)
             for i in range(n)]
    if n > 1 and rng.random() < .5:
        rng.shuffle(names)
    return (iter(names) if kind == "iter" else tuple(names) if kind == "tuple" else names), names


class Log:
    def __init__(self, g):
        self.g, self.asks = g, []

    def add(self, op, a, b, left, right, emb, cached=True):
        """left, right: the labels that were asked for"""
        ids = Ids(list(left) + list(right))
        self.asks.append(dict(op=op, a=a, b=b, cached=cached, nl=len(left), nr=len(right),
                              emb=[[ids[v], c] for v, c in emb.items()]))

    def row(self, **kw):
        tid = Ids(self.g.nodes())
        used = {q for x in self.asks for _, c in x["emb"] for q in c if tid[q]}
        sub = Ids(v for v in self.g if v in used)   # only nodes that occur, to keep it small
        h = self.g.subgraph(used)
        for x in self.asks:
            x["emb"] = [[v, [sub[q] for q in c]] for v, c in x["emb"]]
        return dict(tadj=enc_adj(h, sub) if len(sub) else [], asks=self.asks, **kw)


def clique_asks(rng, g, log, bgc, seed, top):
    sizes = list(range(0, top + 3))
    for n in sizes:
        arg, names = wanted(rng, n, "a")
        log.add("clique", n, 0, range(n) if names is None else names, [], bgc.find_clique_embedding(arg))
    e = bgc.largest_clique()
    log.add("largest", 0, 0, range(len(e)), [], e)
    longest = max(map(len, e.values()), default=0)
    for ell in [*range(0, longest + 2), longest + rng.randint(2, 9)]:
        x = bgc.largest_clique_by_chainlength(ell)
        log.add("bylength", ell, 0, range(len(x)), [], x)
    return longest


def clique(rng, k):
    family, dims, labels, kind, g = graph(rng)
    seed = rng.randrange(2**32)
    log = Log(g)
    with fresh_cache(k):
        bgc = bc.busgraph_cache(g, seed=seed)
        top = len(bgc.largest_clique())
        clique_asks(rng, g, log, bgc, seed, top)
        for n in {1, 2, rng.randint(0, top + 2), rng.randint(0, top + 2), top, top + 1}:
            arg, names = wanted(rng, n, "a")
            if rng.random() < .2:                         # another object, from the file
                e = bc.busgraph_cache(g, seed=seed).find_clique_embedding(arg)
                log.add("file", n, 0, range(n) if names is None else names, [], e)
            else:
                e = bc.find_clique_embedding(arg, g, seed=seed, use_cache=False)
                log.add("direct", n, 0, range(n) if names is None else names, [], e, cached=False)
    return [log.row(family=family, dims=list(dims), labels=labels, kind=kind, nodes=len(g), what="clique",
                    simple=internal_complete(g, family, dims, labels))]


def internal_complete(g, family, dims, labels):
    """no coupler is missing between nodes of g"""
    full = make(family, dims, labels)
    return full.subgraph(g.nodes()).number_of_edges() == g.number_of_edges()


def biclique(rng, k):
    family, dims, labels, kind, g = graph(rng)
    seed = rng.randrange(2**32)
    log = Log(g)
    with fresh_cache(k):
        bgc = bc.busgraph_cache(g, seed=seed)
        e = bgc.largest_balanced_biclique()
        half = len(e) // 2
        log.add("balanced", half, 0, list(range(half)), list(range(half, len(e))), e)
        top = half + 2
        sizes = {(a, a) for a in (1, half - 1, half, half + 1) if a >= 0}
        for _ in range(10):
            a, b = rng.randint(0, top), rng.randint(0, top + 8)
            sizes |= {(a, b), (b, a)}
            if rng.random() < .5:
                sizes |= {(max(a - 1, 0), b), (a + 1, b), (a, b + 1)}
        sizes |= {(0, len(g)), (0, len(g) + 1), (0, 0)}
        for a, b in sorted(sizes):
            x, xs = wanted(rng, a, "a")
            y, ys = wanted(rng, b, "b")
            xs = list(range(a)) if xs is None else xs
            ys = list(range(a, a + b)) if ys is None else ys
            if set(xs) & set(ys):
                x, y, xs, ys = a, b, list(range(a)), list(range(a, a + b))
            log.add("biclique", a, b, xs, ys, bgc.find_biclique_embedding(x, y))
    return [log.row(family=family, dims=list(dims), labels=labels, kind=kind, nodes=len(g), what="biclique",
                    simple=False)]


def native(rng, k):
    """sizes only: what is found, against what is native to the lattice (spec/NativeJudge)"""
    family, dims, labels = topology(rng)
    if family == "pegasus" and rng.random() < .5:
        family, labels = "chimera", "int"
    if family == "chimera" and (len(dims) < 3 or rng.random() < .6):
        dims = (rng.randint(2, 6), rng.randint(2, 6), rng.choice([1, 1, 2, 4]))
    if family == "pegasus":
        dims = (2, rng.randrange(8)) if rng.random() < .5 and labels != "nice" else (2,)
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    full = make(family, dims, labels)
    lin, _ = converters(family, dims, labels)
    if kind not in ("none", "nodes"):
        # few crossings without a coupler; as many gaps along the lines as may be
        lost = [e for e in full.subgraph(nodes).edges() if rng.random() < rng.choice([.002, .01, .05])]
        rng.shuffle(lost)
        cross, gone = 0, set()
        most = 3 if family == "pegasus" else rng.choice([1, 2, 3, 3, 4, 5])
        for e in lost:
            a, b = sorted(map(lin, e))
            across = orientation(family, dims, a) != orientation(family, dims, b)
            if across and cross == most:
                continue
            cross += across
            gone.add(frozenset(e))
        edges = [e for e in full.subgraph(nodes).edges() if frozenset(e) not in gone]
    else:
        edges = list(full.subgraph(nodes).edges())
    g = make(family, dims, labels, nodes, edges)
    lat = dict(family=family, m=dims[0], n=0, t=1, off=[[], []])
    if family == "chimera":
        lat.update(n=dims[1], t=dims[2])
    elif family == "zephyr":
        lat.update(t=dims[1])
    else:
        lat.update(off=[[o // 2 for o in g.graph[d + "_offsets"]] for d in ("vertical", "horizontal")])
    cliques, bicliques = [], []
    with fresh_cache(k):
        bgc = bc.busgraph_cache(g, seed=rng.randrange(2**32))
        e = bgc.largest_clique()
        top = max(map(len, e.values()), default=0)
        cliques.append([top + 3, len(e)])
        n = top + rng.randint(0, 3)
        cliques.append([n, len(bgc.largest_clique_by_chainlength(n))])
        for n in rng.sample(range(1, top + 1), min(2, top)):
            cliques.append([n, len(bgc.largest_clique_by_chainlength(n))])
        if rng.random() < .7 or family != "pegasus":
            half = len(bgc.largest_balanced_biclique()) // 2
            most = max(dims[0], dims[1]) * dims[2] if family == "chimera" else 3 * half + 4
            sizes = {(a, b) if rng.random() < .8 else (b, a) for a in range(1, half + 2) for b in range(a, most + 1)}
            if len(sizes) > 60:
                sizes = set(rng.sample(sorted(sizes), 60)) | {(half, half), (half + 1, half + 1)}
            for a, b in sorted(sizes):
                e = bgc.find_biclique_embedding(a, b) if a and b else {}
                if a and b:
                    bicliques.append([a, b, max(map(len, e.values()), default=0)])
    return [dict(lattice=lat, kind=kind, nodes=sorted(lin(v) for v in g),
                 edges=[sorted((lin(a), lin(b))) for a, b in g.edges()],
                 cliques=cliques, bicliques=bicliques)]


def orientation(family, dims, q):
    if family == "chimera":
        return q // dims[2] % 2
    if family == "zephyr":
        return q // ((2 * dims[0] + 1) * dims[1] * 2 * dims[0])
    return q // (dims[0] * 12 * (dims[0] - 1))


def fold(x):
    return json.dumps(x, separators=(",", ":"))


def canon(emb, back):
    return [[v, sorted(back(q) for q in c)] for v, c in sorted(emb.items())]


def det(rng, k):
    """the same questions asked in many ways"""
    family, dims, labels = topology(rng)
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    g = make(family, dims, labels, nodes, edges)
    seeds = [rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)]) for _ in range(2)]
    h, why = [], []

    def say(key, reply, reason):
        h.append([fold(key), fold(reply)])
        why.append(reason)

    def view(g, labels, objects, s, reason, sizes):
        back, _ = converters(family, dims, labels)
        bgc = objects()
        for what in rng.sample(["c", "l", "b", "bb", "len"], 5):
            if what == "c":
                for n in sizes:
                    say(["clique", s, n], canon(bgc.find_clique_embedding(n), back), reason)
            elif what == "l":
                say(["largest", s], canon(bgc.largest_clique(), back), reason)
            elif what == "b":
                for a, b in ((1, 3), (2, 2), (3, 5), (6, 4)):
                    say(["biclique", s, a, b], canon(bgc.find_biclique_embedding(a, b), back), reason)
            elif what == "bb":
                say(["balanced", s], canon(bgc.largest_balanced_biclique(), back), reason)
            else:
                for n in sizes[:3] + [sizes[-1] + 9]:
                    say(["bylength", s, n], canon(bgc.largest_clique_by_chainlength(n), back), reason)

    back, _ = converters(family, dims, labels)
    sizes = rng.sample(range(0, 14), 4)
    objs = {}
    graphs = [fold([sorted(map(repr, g.nodes())), sorted(sorted(map(repr, e)) for e in g.edges())])]
    for step in range(rng.randint(4, 7)):
        s = rng.choice(seeds)
        way = rng.choice(["fresh", "file", "object", "direct", "random-state", "labels"])
        with fresh_cache(k * 100 + step):
            if way == "fresh":
                view(g, labels, lambda: objs.setdefault(s, bc.busgraph_cache(g, seed=s)), s, way, sizes)
            elif way == "object":
                if s in objs:
                    view(g, labels, lambda: objs[s], s, way, sizes)
            elif way == "file":
                for t in rng.sample(seeds, 2):      # with one of another seed beside it
                    a = bc.busgraph_cache(g, seed=t)
                    a.largest_clique()
                    a.find_biclique_embedding(1, 1)
                view(g, labels, lambda: bc.busgraph_cache(g, seed=s), s, way, sizes)
            elif way == "direct":
                for n in sizes:
                    say(["direct", s, n], canon(bc.find_clique_embedding(n, g, seed=s, use_cache=False), back), way)
            elif way == "random-state":
                import random
                for n in sizes:
                    random.seed(s)
                    say(["state", s, n], canon(bc.find_clique_embedding(n, g, use_cache=False), back), way)
            else:
                # the short cliques are found in the order of the edges
                new = rng.choice(LABELS[family])
                g2 = make(family, dims, new, *other_labels(family, dims, labels, nodes, edges, new))
                view(g2, new, lambda: bc.busgraph_cache(g2, seed=s), s, way, [n for n in sizes if n > 4] or [30])
    # canonical keys for small and largest cliques hold only if there are more than four nodes
    drop = [j for j in range(len(h)) if why[j] == "labels" and
            (h[j][0].startswith('["largest') or h[j][0].startswith('["bylength')) and len(json.loads(h[j][1])) <= 4]
    h = [x for j, x in enumerate(h) if j not in drop]
    why = [x for j, x in enumerate(why) if j not in drop]
    graphs.append(fold([sorted(map(repr, g.nodes())), sorted(sorted(map(repr, e)) for e in g.edges())]))
    for x in graphs:
        h.append(["graph", x])
        why.append("modified")
    return [dict(h=h, why=why)]


def proc(rng, k):
    family, dims, labels, kind, g = graph(rng)
    s = rng.randrange(2**32)
    back, _ = converters(family, dims, labels)
    h = []
    with fresh_cache(k):
        b = bc.busgraph_cache(g, seed=s)
        h.append(["id", b.topology_identifier() + b._graph.short_identifier])
        for n in rng.sample(range(0, 14), 4):
            h.append([fold(["c", n]), fold(canon(b.find_clique_embedding(n), back))])
            h.append([fold(["d", n]), fold(canon(bc.find_clique_embedding(n, g, seed=s, use_cache=False), back))])
        h.append(["b", fold(canon(b.largest_balanced_biclique(), back))])
    return [dict(h=h, why=["process"] * len(h))]


def small_change(rng, nodes, edges):
    nodes, edges = list(nodes), list(edges)
    if edges and rng.random() < .6:
        edges.remove(rng.choice(edges))
    elif len(nodes) > 1:
        v = rng.choice(nodes)
        nodes.remove(v)
        edges = [e for e in edges if v not in e]
    return nodes, edges


def odd(family, dims, labels, x, y):
    """a coupler that the topology of busclique ignores"""
    if family == "chimera":
        return False
    back, _ = converters(family, dims, labels)
    _, to = converters(family, dims, "coordinate")
    x, y = to(back(x)), to(back(y))
    if family == "pegasus":
        return x[0] == y[0] and x[3] == y[3]
    return x[0] == y[0] and x[3] != y[3]


def ident(rng, k):
    """which graphs have which identifier"""
    items = []

    def add(family, dims, labels, nodes, edges, seed):
        back, _ = converters(family, dims, labels)
        g = make(family, dims, labels, nodes, edges)
        b = bc.busgraph_cache(g, seed=seed)
        key = fold([family, dims, seed, sorted(map(back, g.nodes())),
                    sorted(sorted((back(x), back(y))) for x, y in g.edges())])
        coarse = fold([family, dims, sorted(map(back, g.nodes())),
                       sorted(sorted((back(x), back(y))) for x, y in g.edges() if not odd(family, dims, labels, x, y))])
        items.append(dict(key=key, coarse=coarse, id=b.topology_identifier(), short=b._graph.short_identifier, family=family))

    family, dims, labels = topology(rng)
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    for _ in range(rng.randint(5, 9)):
        n2, e2, d2, l2, s2, f2 = list(nodes), list(edges), dims, labels, rng.choice([0, 0, 0, 7]), family
        way = rng.choice(["same", "order", "labels", "less", "less", "less", "dims"])
        if way == "order":
            rng.shuffle(n2)
            rng.shuffle(e2)
            e2 = [(b, a) if rng.random() < .5 else (a, b) for a, b in e2]
        elif way == "labels":
            l2 = rng.choice(LABELS[family])
            n2, e2 = other_labels(family, dims, labels, n2, e2, l2)
        elif way == "less":
            n2, e2 = small_change(rng, n2, e2)
        elif way == "dims" and family == "chimera":
            d2 = rng.choice([(dims[0] + 1, dims[1], dims[2]), (dims[0], dims[1] + 1, dims[2]),
                             (dims[1], dims[0], dims[2])])
            n2, e2, _ = defects(rng, make(family, d2, labels))
        add(f2, d2, l2, n2, e2, s2)
    return [dict(items=items)]


def swap(rng, k):
    """a cache that was made for one graph is only ever used for graphs that it fits"""
    family, dims, labels = topology(rng)
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    seed = rng.choice([0, rng.randrange(2**32)])
    with fresh_cache(k):
        for j in range(3):
            n2, e2 = (nodes, edges) if j == 0 else small_change(rng, nodes, edges)
            l2 = rng.choice(LABELS[family])
            g = make(family, dims, l2, *other_labels(family, dims, labels, n2, e2, l2))
            log = Log(g)
            bgc = bc.busgraph_cache(g, seed=seed)
            log.add("balanced", 0, 0, *(lambda e: (list(range(len(e) // 2)), list(range(len(e) // 2, len(e))), e))(
                bgc.largest_balanced_biclique()))
            for n in range(1, len(bgc.largest_clique()) + 1):
                log.add("clique", n, 0, range(n), [], bgc.find_clique_embedding(n))
            for a, b in ((1, 2), (2, 3), (3, 3), (3, 6)):
                log.add("biclique", a, b, range(a), range(a, a + b), bgc.find_biclique_embedding(a, b))
            yield log.row(family=family, dims=list(dims), labels=l2, kind=kind, nodes=len(g), what="swap", simple=False)


QUALITY = {
    "none": None,
    "fewest": lambda e: -sum(map(len, e)),
    "long": lambda e: max(map(len, e)),
    "const": lambda e: 0,
    "ids": lambda e: sum(map(sum, e)) % 5,
    "default": lambda e: (-max(map(len, e)), sum(len(c) == max(map(len, e)) for c in e)),
}


def plain(emb, back):
    """the chains, in order, of integer labels"""
    return [[back(q) for q in c] for c in (emb.values() if isinstance(emb, dict) else emb)]


def contents(bgc, back):
    """the whole cache, through its questions"""
    size = [[int(n), [list(map(int, c)) for c in e]]
            for n, e in bgc.get_clique_cache(sparse=True, compress=False).items()]
    length = [[n, plain(bgc.largest_clique_by_chainlength(n), back)] for n in range(42)]
    while len(length) > 1 and length[-1][1] == length[-2][1]:
        length.pop()
    return dict(size=size, length=length)


def variant(rng, g, emb):
    """another clique embedding, from emb: without some chains, with longer ones"""
    chains = [list(c) for c in emb.values()]
    if rng.random() < .7 and chains:
        chains = rng.sample(chains, rng.randint(0, len(chains)))
    if rng.random() < .6 and chains:
        used = {q for c in chains for q in c}
        for _ in range(rng.randint(1, 4)):
            c = rng.choice(chains)
            more = [w for q in c for w in g.neighbors(q) if w not in used]
            if more:
                w = rng.choice(more)
                c.append(w)
                used.add(w)
    return chains


def cache(rng, k):
    """histories of inserting, merging, updating, asking and reopening"""
    family = rng.choice(["chimera", "chimera", "chimera", "pegasus", "zephyr"])
    dims = {"chimera": (rng.randint(1, 2), rng.randint(1, 3), rng.choice([1, 2, 3, 4])), "pegasus": (2,),
            "zephyr": (1, rng.choice([1, 2]))}[family]
    labels = rng.choice(LABELS[family])
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    g = make(family, dims, labels, nodes, edges)
    back, to = converters(family, dims, labels)
    seeds = rng.sample(range(2**32), rng.choice([1, 2, 2]))
    if rng.random() < .3:
        seeds[0] = 0
    native, pool = [], []
    with fresh_cache(k * 10):
        for s in seeds:
            b = bc.busgraph_cache(g, seed=s)
            native.append(contents(b, back))
            pool += [b.largest_clique()] + [b.find_clique_embedding(n) for n in range(1, 8)]
    pool = [e for e in pool if e] or [{}]
    of = [rng.randrange(len(seeds)) for _ in range(rng.randint(1, 3))]
    steps, saved = [], []
    mining = rng.random() < .12 and 0 in seeds
    with fresh_cache(k * 10 + 1):
        objs = [bc.busgraph_cache(g, seed=seeds[s]) for s in of]

        def log(op, o, **kw):
            steps.append(dict(dict(op=op, o=o + 1), **kw))

        def observe(o):
            b = objs[o]
            what = rng.choice(["sparse", "sparse", "dense", "find", "largest", "bylength", "bylength"])
            if what in ("sparse", "dense"):
                comp = rng.random() < .4
                c = b.get_clique_cache(sparse=what == "sparse", compress=comp)
                saved.append(c)
                if comp:
                    import gzip
                    c = json.loads(gzip.decompress(c).decode())
                if what == "sparse":
                    c = [[int(n), [list(map(int, x)) for x in e]] for n, e in c.items()]
                else:
                    c = [[list(map(int, x)) for x in e] for e in c]
                log(what, o, reply=c)
            elif what == "find":
                n = rng.randint(0, 12)
                log("find", o, n=n, reply=plain(b.find_clique_embedding(n), back))
            elif what == "largest":
                log("largest", o, reply=plain(b.largest_clique(), back))
            else:
                n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 12, 30])
                log("bylength", o, n=n, reply=plain(b.largest_clique_by_chainlength(n), back))

        for _ in range(rng.randint(4, 14)):
            o = rng.randrange(len(objs))
            b = objs[o]
            op = rng.choice(["insert", "insert", "insert", "direct", "merge", "merge", "update", "open", "observe",
                             "observe", "observe", "wipe"])
            write = rng.random() < .6
            q = rng.choice(["none", "none", "none", *QUALITY])
            kw = {} if q == "none" and rng.random() < .5 else {"quality_function": QUALITY[q]}
            if write and rng.random() < .5:
                pass
            else:
                kw["write_to_disk"] = write
            if mining and op == "observe" and seeds[of[o]] == 0 and rng.random() < .5:
                import random
                random.seed(rng.randrange(2**32))
                with_q = rng.choice(["default", "fewest"])
                m = bc.mine_clique_embeddings(g, num_seeds=rng.randint(0, 2), mask_bound=4,
                                              heuristic_bound=rng.randint(2, 4), heuristic_runs=1,
                                              regularize=rng.random() < .5,
                                              heuristic_args=dict(tries=1, max_beta=3, chainlength_patience=1),
                                              **({} if with_q == "default" else dict(quality_function=QUALITY[with_q])))
                objs[o] = m
                log("mine", o, q=with_q, write=True, cache=contents(m, back))
            elif op in ("insert", "direct"):
                e = variant(rng, g, rng.choice(pool))
                log(op, o, q=q, write=write, emb=plain(e, back))
                if op == "direct":
                    kw.pop("quality_function", 0)
                    kw["direct"] = True
                b.insert_clique_embedding(rng.choice([e, dict(enumerate(e)), {"x%d" % i: c for i, c in enumerate(e)}]), **kw)
            elif op == "merge":
                p = rng.randrange(len(objs))
                log("merge", o, p=p + 1, q=q, write=write)
                b.merge_clique_cache(objs[p], **kw)
            elif op == "update":
                way = rng.choice(["saved", "list", "dict", "str", "bytes"])
                kw.pop("quality_function", 0)
                if way == "saved" and saved:
                    c = rng.choice(saved)
                    plainc = c
                    if isinstance(c, bytes):
                        import gzip
                        plainc = json.loads(gzip.decompress(c).decode())
                    embs = list(plainc.values()) if isinstance(plainc, dict) else plainc
                else:
                    es = [plain(variant(rng, g, rng.choice(pool)), back) for _ in range(rng.randint(0, 4))]
                    if way == "list":
                        c, embs = es, es
                    else:
                        c = {len(e): e for e in es}
                        embs = list(c.values())
                        if way in ("str", "bytes"):
                            c = json.dumps(c)
                        if way == "bytes":
                            import gzip
                            c = gzip.compress(c.encode("utf8"))
                log("update", o, write=write, embs=[[list(map(int, x)) for x in e] for e in embs])
                b.update_clique_cache(c, **kw)
            elif op == "open":
                objs[o] = bc.busgraph_cache(g, seed=seeds[of[o]])
                log("open", o)
            elif op == "wipe":
                if rng.random() < .3:
                    bc.busgraph_cache.clear_all_caches()
                    log("wipe", o)
            else:
                observe(o)
        for o in range(len(objs)):
            for _ in range(2):
                observe(o)
    return [dict(native=native, seeds=[s + 1 for s in of], steps=steps)]


def mines(rng, k):
    """mining again and again, and with the documented defaults"""
    import random
    family, dims = rng.choice([("chimera", (3, 3, 4)), ("pegasus", (3,)), ("pegasus", (2,)), ("zephyr", (2, 2)),
                               ("chimera", (2, 3, 2))])
    labels = rng.choice(LABELS[family])
    nodes, edges, kind = defects(rng, make(family, dims, labels))
    g = make(family, dims, labels, nodes, edges)
    back, to = converters(family, dims, labels)
    r, n, two, steps = rng.randrange(2**32), rng.randint(1, 2), [], []
    for j, kw in enumerate(({}, dict(quality_function=bc._default_quality_function))):
        with fresh_cache(k * 10 + j):
            random.seed(r)
            m = bc.mine_clique_embeddings(g, num_seeds=n, mask_bound=4, heuristic_bound=2, **kw)
            two.append(contents(m, back))
    steps.append(dict(op="mines", o=1, one=two[0], two=two[1]))
    with fresh_cache(k * 10 + 2):
        b = bc.busgraph_cache(g)
        native = [contents(b, back)]
        steps.append(dict(op="find", o=1, n=1, reply=plain(b.find_clique_embedding(1), back)))
        for _ in range(2):
            q = rng.choice(["default", "default", "fewest"])
            m = bc.mine_clique_embeddings(g, num_seeds=rng.randint(0, 2), mask_bound=4,
                                          heuristic_bound=rng.randint(2, 6), heuristic_runs=rng.randint(1, 2),
                                          regularize=rng.random() < .5,
                                          heuristic_args=dict(tries=1, max_beta=3, chainlength_patience=1),
                                          **({} if q == "default" else dict(quality_function=QUALITY[q])))
            steps.append(dict(op="mine", o=1, q=q, write=True, cache=contents(m, back)))
            again = bc.busgraph_cache(g)
            steps.append(dict(op="open", o=1))
            for j in rng.sample(range(0, 14), 3):
                steps.append(dict(op="find", o=1, n=j, reply=plain(again.find_clique_embedding(j), back)))
    return [dict(native=native, seeds=[1], steps=steps)]


def mined(rng, k):
    """the cliques that mining finds are cliques"""
    import random
    family, dims, labels, kind, g = graph(rng)
    log = Log(g)
    with fresh_cache(k):
        random.seed(rng.randrange(2**32))
        kw = rng.choice([{}, {}, dict(quality_function=QUALITY["fewest"]), dict(quality_function=QUALITY["long"])])
        if len(g) < 40 and rng.random() < .5:
            pass
        else:
            kw = dict(kw, heuristic_bound=rng.randint(2, 6))
        m = bc.mine_clique_embeddings(g, num_seeds=rng.randint(0, 2), mask_bound=rng.choice([1, 4, 64]),
                                      heuristic_runs=1, regularize=rng.random() < .7,
                                      heuristic_args=dict(tries=1, max_beta=3, chainlength_patience=1), **kw)
        for n in range(len(m.largest_clique()) + 2):
            log.add("clique", n, 0, range(n), [], m.find_clique_embedding(n))
        for n in range(8):
            e = m.largest_clique_by_chainlength(n)
            log.add("bylength", n, 0, range(len(e)), [], e)
    return [log.row(family=family, dims=list(dims), labels=labels, kind=kind, nodes=len(g), what="mined", simple=False)]


if __name__ == "__main__":
    hlib.main({"clique": clique, "biclique": biclique, "det": det, "proc": proc, "ident": ident, "swap": swap,
               "cache": cache, "mines": mines, "mined": mined, "native": native})
