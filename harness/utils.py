"""minorminer.utils: the embedding checkers, the feasibility filter and the lattice bound,
the searches for several embeddings, and the legacy entry points (spec/UtilsJudge)."""

import itertools
import os
import sys
import time
import types
import warnings

import networkx as nx

import hlib
from busq import fresh_cache, make
from hlib import Ids, enc_adj, enc_edges, enc_emb

import minorminer as mm
from minorminer.utils import diagnostic, exceptions, feasibility

warnings.simplefilter("ignore")


# ------------------------------------------------------------------ an exact embedder

def monomorphism(S, T, rng=None, **kw):
    """some one-to-one embedding of S in T, {} exactly if there is none"""
    order = sorted(S, key=lambda v: -S.degree(v))
    out = {}
    seen = []
    for v in order:                       # connected orders prune best
        if v not in seen:
            stack = [v]
            while stack:
                u = stack.pop()
                if u not in seen:
                    seen.append(u)
                    stack.extend(w for w in S[u] if w not in seen)
    used = set()

    def go(k):
        if k == len(seen):
            return True
        v = seen[k]
        placed = [out[u] for u in S[v] if u in out]
        cand = list(T[placed[0]]) if placed else list(T)
        for q in cand:
            if q in used or T.degree(q) < S.degree(v) - (v in S[v]):
                continue
            if all(T.has_edge(q, p) for p in placed):
                out[v] = q
                used.add(q)
                if go(k + 1):
                    return True
                used.discard(q)
                del out[v]
        return False
    return dict(out) if go(0) else {}


# minorminer.subgraph needs a solver that is not part of this repository's sources
stub = types.ModuleType("minorminer.subgraph")
stub.find_subgraph = monomorphism
sys.modules.setdefault("minorminer.subgraph", stub)
from minorminer.utils import parallel_embeddings as pe      # noqa: E402


# ------------------------------------------------------------------ witnesses

def planted(rng, T, one=False, hi=8):
    """A graph with an embedding in T: disjoint connected chains, and some of the edges
    between them."""
    free = set(T)
    chains = []
    for _ in range(rng.randint(1, hi)):
        if not free:
            break
        c = [rng.choice(sorted(free, key=repr))]
        free.discard(c[0])
        while not one and rng.random() < .5:
            rim = sorted({w for q in c for w in T[q] if w in free}, key=repr)
            if not rim:
                break
            c.append(rng.choice(rim))
            free.discard(c[-1])
        chains.append(c)
    S = nx.Graph()
    names = list(range(len(chains)))
    rng.shuffle(names)
    S.add_nodes_from(names)
    keep = rng.choice([1, 1, .9, .6])
    for (i, a), (j, b) in itertools.combinations(enumerate(chains), 2):
        if any(T.has_edge(p, q) for p in a for q in b) and rng.random() < keep:
            S.add_edge(names[i], names[j])
    return S, dict(zip(names, chains))


def exception_name(e):
    return type(e).__name__


# ------------------------------------------------------------------ diagnose

KINDS = {exceptions.MissingChainError: "missing", exceptions.InvalidNodeError: "node",
         exceptions.DisconnectedChainError: "broken", exceptions.ChainOverlapError: "overlap",
         exceptions.MissingEdgeError: "edge"}


def damage(rng, emb, S, T):
    emb = {v: list(c) for v, c in emb.items()}
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        v = rng.choice(sorted(emb)) if emb else None
        if v is None:
            break
        what = rng.choice(["drop", "empty", "stray", "steal", "cut", "add", "edge", "swap", "repeat"])
        if what == "drop":
            del emb[v]
        elif what == "empty":
            emb[v] = []
        elif what == "stray":
            emb[v].insert(rng.randint(0, len(emb[v])), ("no", rng.randint(0, 1)))
        elif what == "steal":
            u = rng.choice(sorted(emb))
            if emb[u]:
                emb[v].append(rng.choice(emb[u]))
        elif what == "cut" and emb[v]:
            emb[v].pop(rng.randrange(len(emb[v])))
        elif what == "add":
            emb[v].append(rng.choice(sorted(T, key=repr)))
        elif what == "edge":
            S.add_edge(v, rng.choice(sorted(S)))
        elif what == "swap":
            u = rng.choice(sorted(emb))
            emb[u], emb[v] = emb[v], emb[u]
        elif what == "repeat" and emb[v] and rng.random() < .3:
            emb[v].append(emb[v][0])
        seen = set()
        emb = {u: (c if what == "repeat" or rng.random() < .05 else
                   [q for q in c if not (q in seen or seen.add(q))] if len(set(c)) != len(c) and not seen else c)
               for u, c in emb.items()}
    return emb


def diag(rng, k):
    T = hlib.target_graph(rng, small=True)
    if rng.random() < .1 and len(T):
        T.add_edge(0, 0)
    S, emb = planted(rng, T)
    emb = damage(rng, emb, S, T)
    emb = {v: (c if rng.random() < .04 else list(dict.fromkeys(c))) for v, c in emb.items()}
    if rng.random() < .1:
        S.add_node(S.number_of_nodes())
    if rng.random() < .1:
        emb["other"] = [rng.choice(sorted(T, key=repr))]
    S2 = hlib.relabel(rng, S)
    sm = _match(S, S2)
    T2 = hlib.relabel(rng, T)
    tm = _match(T, T2)
    emb = {sm.get(v, v): [tm.get(q, q) for q in c] for v, c in emb.items()}
    keys = list(emb)
    rng.shuffle(keys)
    emb = {v: emb[v] for v in keys}
    sid = Ids(S2)
    stray = sorted({q for c in emb.values() for q in c if q not in T2}, key=repr)
    tid = Ids(list(T2) + stray)
    row = dict(what="diag", ns=len(S2), sedges=enc_edges(S2, sid), tadj=enc_adj_of(T2, tid),
               emb=[[sid[v], [tid[q] for q in c]] for v, c in emb.items() if v in S2],
               repeated=any(len(set(c)) < len(c) for c in emb.values()))
    form = rng.choice([list, list, tuple, set, frozenset, dict.fromkeys])
    given = {v: form(c) for v, c in emb.items()}
    before = repr(given)
    source = S2 if S2.number_of_edges() == 0 or any(not S2.degree(v) for v in S2) or rng.random() < .6 else list(S2.edges())
    target = T2 if any(not T2.degree(v) for v in T2) or rng.random() < .6 else list(T2.edges())
    se, te = (sorted(map(repr, g.edges())) for g in (S2, T2))

    def enc(cls, args):
        kind = KINDS[cls]
        if kind in ("missing", "broken"):
            (v,) = args
            return [kind, sid[v], 0, 0]
        if kind == "node":
            v, q = args
            return [kind, sid[v], tid[q], 0]
        if kind == "edge":
            u, v = args
            return [kind, sid[u], sid[v], 0]
        q, u, v = args
        return [kind, tid[q], sid[u], sid[v]]
    row["errors"] = [enc(e[0], e[1:]) for e in diagnostic.diagnose_embedding(given, source, target)]
    row["valid"] = diagnostic.is_valid_embedding(given, source, target)
    ignore = rng.sample(sorted(KINDS, key=repr), rng.choice([0, 0, 1, 2, 4, 5]))
    row["ignore"] = [KINDS[c] for c in ignore]
    try:
        r = (diagnostic.verify_embedding(given, source, target, ignore_errors=ignore) if ignore
             else diagnostic.verify_embedding(given, source, target))
        row["raised"] = ["none" if r is True else "odd", 0, 0, 0]
    except exceptions.EmbeddingError as e:
        kind = KINDS[type(e)]
        args = {"missing": lambda: (e.source_node,), "broken": lambda: (e.source_node,),
                "node": lambda: (e.source_node, e.target_node), "edge": lambda: e.source_nodes,
                "overlap": lambda: (e.target_node,) + tuple(e.source_nodes)}[kind]()
        row["raised"] = enc(type(e), args)
    row["unmodified"] = before == repr(given) and se == sorted(map(repr, S2.edges())) and te == sorted(map(repr, T2.edges()))
    yield row


def _match(g, h):
    """the renaming that hlib.relabel made"""
    if sorted(map(repr, g)) == sorted(map(repr, h)) and all(isinstance(v, int) for v in h) and set(g.edges()) == set(h.edges()):
        return {v: v for v in g}
    inv = {}
    for v in h:
        for u in (getattr(v, "real", None),):
            pass
        inv[v] = _unlabel(v, len(g))
    if sorted(inv.values()) == sorted(g) and all(h.has_edge(a, b) == g.has_edge(inv[a], inv[b]) for a in h for b in h):
        return {u: v for v, u in inv.items()}
    # a permutation: any isomorphism will do for a test
    m = nx.algorithms.isomorphism.GraphMatcher(g, h)
    assert m.is_isomorphic()
    return dict(m.mapping)


def _unlabel(v, n):
    if isinstance(v, str):
        return int(v[1:])
    if isinstance(v, frozenset):
        return next(iter(x for x in v if x not in ("f", -1)))
    if isinstance(v, tuple):
        return v[0] if len(v) == 1 else v[0] * 3 + v[1]
    if v < 0:
        return -v - 5
    return (v - 1000) // 7 if v >= 1000 else v


def enc_adj_of(g, ids):
    return [[ids[w] for w in g[v]] for v in ids.nodes if v in g]


# ------------------------------------------------------------------ feasibility

def some_target(rng):
    """a small graph, with loops left out"""
    g = hlib.target_graph(rng, small=rng.random() < .7)
    g.remove_edges_from(list(nx.selfloop_edges(g)))
    return g


def encode(S, T, emb=None):
    sid, tid = Ids(S), Ids(T)
    return dict(ns=len(S), sedges=enc_edges(S, sid), tadj=enc_adj(T, tid),
                emb=enc_emb(emb, sid, tid) if emb else [])


def filter_(rng, k):
    T = some_target(rng)
    one = rng.random() < .4
    if rng.random() < .75:
        S, emb = planted(rng, T, one, hi=rng.choice([2, 4, 8, 20, 40]))
    else:
        S, emb = some_target(rng), None
        if rng.random() < .1:
            S = nx.empty_graph(rng.randint(0, 2))
    form = rng.random()
    row = dict(what="filter", one=one, **encode(S, T, emb))
    args = (S, T) if not one and form < .5 else (S, T, one)
    row["res"] = bool(feasibility.embedding_feasibility_filter(*args))
    yield row
    if rng.random() < .05:
        yield dict(what="flag", name="itself", ok=bool(feasibility.embedding_feasibility_filter(T, T, one)))


def vectors(rng, k):
    """the graphs that spec/MinorOps reaches from a target, with the chains it tracks"""
    rows = _vectors()
    for x in rows[k::_vectors.step]:
        S, T = nx.empty_graph(x["ns"]), nx.empty_graph(x["nt"])
        S.add_edges_from((a - 1, b - 1) for a, b in x["sedges"])
        T.add_edges_from((a - 1, b - 1) for a, b in x["tedges"])
        emb = {i: [q - 1 for q in c] for i, c in enumerate(x["emb"])}
        for one in (False, True):
            if one and any(len(c) > 1 for c in emb.values()):
                continue
            row = dict(what="filter", one=one, **encode(S, T, emb))
            row["res"] = bool(feasibility.embedding_feasibility_filter(S, T, one))
            yield row


def _vectors():
    import json
    if not hasattr(_vectors, "rows"):
        _vectors.rows = [json.loads(x) for x in open(os.environ["VECTORS"])]
        _vectors.step = int(os.environ["VECTORS_STEP"])
    return _vectors.rows


def lattice(rng, big=False):
    fam = rng.choice(["chimera", "pegasus", "zephyr"])
    t = rng.choice([1, 2, 4]) if fam != "pegasus" else 12
    m = rng.randint(1, 3 if fam == "chimera" else 2) + (fam == "pegasus")
    if fam == "pegasus" and not big:
        m = 2
    return fam, m, t


def build(fam, m, t):
    return make(fam, (m,) if fam == "pegasus" else (m, m, t) if fam == "chimera" else (m, t), "int")


def bound(rng, k):
    fam, m, t = lattice(rng, big=rng.random() < .3)
    T = build(fam, m, t)
    one = rng.random() < .5
    if rng.random() < .3:       # a target with defects
        T = T.copy()
        T.remove_nodes_from(rng.sample(sorted(T), rng.randint(0, len(T) // 4)))
        T.remove_edges_from(rng.sample(sorted(T.edges()), rng.randint(0, min(3, T.number_of_edges()))))
    given = rng.random() < .5
    r = rng.random()
    if r < .12:
        S, emb = T.copy(), {v: [v] for v in T}
    elif r < .85:
        S, emb = planted(rng, T, one, hi=rng.choice([3, 8, 20, 60]))
    else:
        S, emb = hlib.source_graph(rng), None
        S.remove_edges_from(list(nx.selfloop_edges(S)))
    kw = {}
    illegal = False
    if given:
        kw["T"] = T
        if rng.random() < .3:
            kw["topology"] = fam
        if rng.random() < .3:
            kw["t"] = t
    else:
        kw["topology"] = fam
        if t != 4 or rng.random() < .5:
            kw["t"] = t
    if emb and rng.random() < .12:
        illegal = True
        wrong = rng.choice(["neither", "topology", "unknown", "tile"])
        if wrong == "neither":
            kw.pop("T", 0), kw.pop("topology", 0)
        elif wrong == "topology":
            kw["T"], kw["topology"] = T, rng.choice([f for f in ("chimera", "pegasus", "zephyr") if f != fam])
        elif wrong == "unknown":
            kw = dict(T=nx.Graph(T.edges())) if rng.random() < .5 and T.number_of_edges() else dict(topology="moebius", t=4)
            if "T" in kw:
                kw["T"].add_nodes_from(T)
                kw["t"] = 4
            if one and "topology" in kw:
                one = False
                kw["one_to_one"] = False
        elif fam != "pegasus":
            kw["T"], kw["t"] = T, t + 1
        else:
            illegal = False
    if one or rng.random() < .5:
        kw["one_to_one"] = one
    row = dict(what="bound", m=m, illegal=illegal, exc="", bound=-1, nodes=0, edges=0, **encode(S, T, emb))
    try:
        b = feasibility.lattice_size_lower_bound(S, **kw)
        if b is not None:
            row["bound"] = int(b)
            L = build(fam, int(b), kw.get("t") or t) if int(b) else nx.Graph()
            row["nodes"], row["edges"] = L.number_of_nodes(), L.number_of_edges()
    except Exception as e:
        row["exc"] = exception_name(e)
    yield row


# ------------------------------------------------------------------ several embeddings

def tiny(rng):
    g = rng.choice([lambda: nx.path_graph(2), lambda: nx.path_graph(3), lambda: nx.cycle_graph(4),
                    lambda: nx.star_graph(3), lambda: nx.complete_graph(3), lambda: nx.path_graph(4),
                    lambda: nx.complete_bipartite_graph(2, 2), lambda: nx.empty_graph(1),
                    lambda: nx.complete_graph(4), lambda: nx.disjoint_union(nx.path_graph(2), nx.path_graph(2)),
                    lambda: nx.complete_bipartite_graph(2, 3)])()
    if rng.random() < .4:
        g = nx.relabel_nodes(g, {v: ("s", v) if rng.random() < .5 else "v%d" % v for v in g})
    return g


def mm_embedder(seed):
    def embed(S, T, **kw):
        if not len(T) or T.number_of_edges() == 0 and S.number_of_edges():
            return {}
        try:
            return mm.find_embedding(S, T, random_seed=seed, tries=2, timeout=30, **kw)
        except RuntimeError:
            return {}
    return embed


def defective(rng, g):
    g = g.copy()
    if rng.random() < .6 and len(g) > 4:
        g.remove_nodes_from(rng.sample(sorted(g, key=repr), rng.randint(0, max(1, len(g) // 5))))
    if rng.random() < .3 and g.number_of_edges() > 3:
        g.remove_edges_from(rng.sample(sorted(g.edges(), key=repr), rng.randint(0, 3)))
    return g


def snapshot(*gs):
    return [(list(map(repr, g)), sorted(map(repr, g.edges())), repr(sorted(g.graph.items(), key=repr))) if isinstance(g, nx.Graph)
            else repr(g) for g in gs]


def multi_row(S, T, call, mult, one, exact, limit, regions, proposals=(), illegal=False, tiled=False, repeatable=True,
              watch=()):
    """run a search (twice, if it is to be repeatable), and note all that the judge needs"""
    sid, tid = Ids(S), Ids(T)
    row = dict(what="multi", ns=len(S), sedges=enc_edges(S, sid), tadj=enc_adj(T, tid), one=one, exact=exact,
               limit=-1 if limit is None else limit, illegal=illegal, tiled=tiled, exc="", embs=[],
               regions=[[tid[q] for q in r] for r in regions],
               proposals=[[[tid[q] for q in p[v]] for v in S] for p in proposals], again=True)
    before = snapshot(*watch)

    def run():
        try:
            out = call()
            return "", [[[sid[v], [tid[q] for q in (c if mult else [c])]] for v, c in e.items()] for e in out]
        except Exception as e:
            return exception_name(e), []
    row["exc"], row["embs"] = run()
    if repeatable:
        row["again"] = (row["exc"], row["embs"]) == run()
    row["unmodified"] = before == snapshot(*watch)
    return row


def embedder_of(rng, S):
    """(embedder or None, kwargs, embeds onto chains, exact)"""
    kind = rng.choice(["default", "exact", "exact", "chains", "fails", "single"])
    if kind == "default":
        return None, None, False, True
    if kind == "exact":
        return monomorphism, (None if rng.random() < .5 else {"rng": 1}), False, True
    if kind == "chains":
        return mm_embedder(rng.randrange(1000)), rng.choice([None, {"chainlength_patience": 1}]), True, False
    if kind == "fails":
        return (lambda S, T, **kw: {}), None, rng.random() < .5, False
    return (lambda S, T, **kw: {v: (q,) for v, q in monomorphism(S, T).items()}), None, True, True


def slow(embedder):
    """no more than two calls of it can begin within PATIENCE"""
    def f(S, T, **kw):
        time.sleep(.02)
        return embedder(S, T, **kw)
    return f


PATIENCE = .03


def limit_of(rng):
    return rng.choice([1, 1, 2, 3, 5, None, 100, 0])


def multi(rng, k):
    T = hlib.target_graph(rng, small=True)
    T.remove_edges_from(list(nx.selfloop_edges(T)))
    T = hlib.relabel(rng, T)
    S = tiny(rng)
    emb, kw, mult, exact = embedder_of(rng, S)
    limit = limit_of(rng)
    steady = True
    args = dict(max_num_emb=limit, use_filter=rng.random() < .6, embedder=emb, embedder_kwargs=kw)
    if mult or rng.random() < .3:
        args["one_to_iterable"] = mult
    if rng.random() < .4:
        args["shuffle_all_graphs"] = True
    if rng.random() < .5 or args.get("shuffle_all_graphs"):
        args["seed"] = rng.randrange(1000)
    if rng.random() < .08:
        args["max_num_emb"], limit = float("inf"), None
    if rng.random() < .05:
        args["timeout"], limit = rng.choice([0, -1]), 0
    elif emb and rng.random() < .06:
        args.update(embedder=slow(emb), timeout=PATIENCE)
        limit, exact, steady = 2 if limit is None else min(limit, 2), False, False
    if limit == 1 and rng.random() < .5:
        del args["max_num_emb"]
    via = rng.random() < .2
    fn = pe.find_sublattice_embeddings if via and "max_num_emb" in args and args["max_num_emb"] is not None else pe.find_multiple_embeddings
    yield multi_row(S, T, lambda: fn(S, T, **args), mult, not mult, exact, limit, [list(T)],
                    watch=(S, T, kw), repeatable=steady)


def tilings(tile, T):
    dg = hlib.dw()
    f = {"chimera": dg.chimera_sublattice_mappings, "pegasus": dg.pegasus_sublattice_mappings,
         "zephyr": dg.zephyr_sublattice_mappings}[T.graph["family"]]
    return list(f(tile, T))


def sublattice(rng, k):
    dg = hlib.dw()
    fam = rng.choice(["chimera", "chimera", "pegasus", "zephyr", "zephyr"])
    if fam == "chimera":
        dims = (rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3))
    elif fam == "pegasus":
        dims = (2,)
    else:
        dims = rng.choice([(1, 1), (1, 2), (2, 1)])
    labels = "coordinate" if rng.random() < .25 else "int"
    perfect = make(fam, dims, labels)
    T = defective(rng, perfect)
    S = tiny(rng)
    kw = {}
    size = None
    cross = False
    r = rng.random()
    if r < .55:
        size = rng.randint(1, 2) + (fam == "pegasus")
        if fam == "pegasus":
            size = 2
        tile = build(fam, size, perfect.graph["tile"]) if fam != "pegasus" else build("pegasus", size, 12)
        kw["sublattice_size"] = size
    else:
        if fam != "chimera" and rng.random() < .6:
            t = perfect.graph["tile"] if fam == "zephyr" else 4
            tile = dg.chimera_graph(1, 1, t)
            cross = True
        else:
            tile = build(fam, 2 if fam == "pegasus" else 1, perfect.graph["tile"])
            if fam == "chimera" and rng.random() < .5:
                tile = dg.chimera_graph(rng.randint(1, 2), rng.randint(1, 2), dims[2])
        if rng.random() < .3:
            tile = tile.copy()
            tile.remove_nodes_from(rng.sample(sorted(tile), rng.randint(0, len(tile) // 4)))
        kw["tile"] = tile
    emb, ekw, mult, exact = embedder_of(rng, S)
    illegal = False
    tiled = False
    proposals = []
    mode = rng.choice(["search", "search", "search", "tile", "given", "self", "bad"])
    if mode == "self" and "tile" in kw:
        S = tile
        if len(S) < 9:
            tiled, exact = True, True
            proposals = [{v: (f(v),) for v in tile} for f in safe(tilings, tile, T)]
        else:
            S, mode = tiny(rng), "search"
    elif mode in ("given", "bad"):
        given = monomorphism(S, tile)
        if given and mode == "given":
            tiled, exact = True, True
            kw["tile_embedding"] = {v: (q,) for v, q in given.items()} if mult else given
            # the tile is used whole: its embedding need not be
            proposals = [{v: (f(q),) for v, q in given.items()} for f in safe(tilings, tile, T)]
        elif given and S.number_of_edges():
            v = next(iter(S.edges()))[0]
            given[v] = ("nowhere",)[0]
            kw["tile_embedding"] = {v: (q,) for v, q in given.items()} if mult else given
            illegal = True
    elif mode == "tile":
        kw["use_tile_embedding"] = True
    if mode == "search" and rng.random() < .3:
        kw["use_tile_embedding"] = False
    if mode == "tile":
        exact = False
    limit = limit_of(rng)
    kw.update(max_num_emb=limit, use_filter=rng.random() < .6, embedder=emb, embedder_kwargs=ekw)
    # the filter takes the tile for what there is, and a region of another family has more
    if cross and kw["use_filter"] and not tiled:
        exact = False
    if mult or rng.random() < .3:
        kw["one_to_iterable"] = mult
    for opt in ("shuffle_all_graphs", "shuffle_sublattice_order"):
        if rng.random() < .3:
            kw[opt] = True
            kw["seed"] = rng.randrange(1000)
    if rng.random() < .2:
        kw["seed"] = rng.randrange(1000)
    if rng.random() < .04:
        kw["timeout"], limit, illegal = 0, 0, False
    steady = rng.random() < .5
    if emb and kw.get("use_tile_embedding") is False and "timeout" not in kw and rng.random() < .3:
        kw.update(embedder=slow(emb), timeout=PATIENCE)
        limit, exact, steady = 2 if limit is None else min(limit, 2), False, False
    given_T = T
    T_kwargs = {}
    cast = rng.random()
    if cast < .15:              # the lattice by its name, or a graph cast to it
        if fam == "chimera":
            T_kwargs = dict(m=dims[0], n=dims[1], t=dims[2])
        elif fam == "pegasus":
            T_kwargs = dict(m=dims[0])
        else:
            T_kwargs = dict(m=dims[0], t=dims[1])
        kw["T_family"] = fam
        if labels == "coordinate":
            T_kwargs["coordinates"] = True
        if cast < .07:
            given_T, T = None, perfect
        else:
            given_T = nx.Graph(T.edges())
            given_T.add_nodes_from(T)
        kw["T_kwargs"] = T_kwargs
    regions = [[q for q in (f(v) for v in tile) if q in T] for f in safe(tilings, tile, T)]
    # a bound on the size, or an infeasible tile, ends the search early
    if illegal and kw["use_filter"]:
        flt = feasibility.embedding_feasibility_filter(S, tile, not mult)
        b = feasibility.lattice_size_lower_bound(S, T=T, one_to_one=not mult) if size else 0
        if not flt or b is None or (size and size < b):
            return
    call = (lambda: pe.find_sublattice_embeddings(S, given_T, **kw)) if given_T is not None or rng.random() < .5 else \
        (lambda: pe.find_sublattice_embeddings(S, T=given_T, **kw))
    watch = [S, tile, ekw] + ([given_T] if given_T is not None else [])
    yield multi_row(S, T, call, mult, not mult, exact, limit, regions, proposals, illegal, tiled, watch=watch,
                    repeatable=steady)


def safe(f, *a):
    return f(*a)


# ------------------------------------------------------------------ arrays and small things

def arrays(rng, k):
    import numpy as np
    n = rng.randint(1, 5)
    S = rng.sample([0, 1, 2, 3, "a", ("b", 1), 7, -1], n)
    mult = rng.random() < .4
    embs = []
    q = 0
    for _ in range(rng.randint(1, 6)):
        e = {}
        for v in rng.sample(S, n):
            c = [q + j for j in range(rng.randint(1, 3))]
            q += len(c)
            e[v] = tuple(c) if mult else c[0]
        embs.append(e)
    order = None
    if rng.random() < .6:
        order = rng.sample(S, rng.randint(1, n) if rng.random() < .5 else n)
    nd = not mult and rng.random() < .4
    used = order if order is not None else list(embs[0])
    row = dict(what="array", exc="", arr=[], back=[])
    sid = Ids(S)
    enc = (lambda c: list(c)) if mult else (lambda c: [int(c)])
    row["embs"] = [[[sid[v], enc(c)] for v, c in e.items()] for e in embs]
    row["order"] = [sid[v] for v in used]
    try:
        kw = {} if order is None else {"node_order": order if rng.random() < .7 else tuple(order)}
        if nd:
            kw["as_ndarray"] = True
        arr = pe.embeddings_to_array(embs, **kw)
        if nd and (not isinstance(arr, np.ndarray) or arr.shape != (len(embs), len(used))):
            row["exc"] = "shape"
        row["arr"] = [[enc(c) for c in r] for r in arr]
        # a list of chains alone is an embedding too: ambiguous forms are not of interest
        back = pe.array_to_embeddings(iter(arr) if rng.random() < .3 else arr, used if rng.random() < .7 or True else None)
        row["back"] = [[[sid[v], enc(c)] for v, c in e.items()] for e in back]
    except Exception as e:
        row["exc"] = exception_name(e)
    yield row
    # one embedding by itself
    one = {v: q for q, v in enumerate(used)}
    got = pe.array_to_embeddings([one[v] for v in used], used)
    yield dict(what="flag", name="single", ok=got == [one])
    got = pe.array_to_embeddings([[one[v] for v in used]])
    yield dict(what="flag", name="default-order", ok=got == [dict(enumerate(one[v] for v in used))])
    yield dict(what="flag", name="empty", ok=pe.embeddings_to_array([]) == [] and pe.array_to_embeddings([]) == []
               and pe.embeddings_to_array([], node_order=used, as_ndarray=True).shape == (0, len(used)))
    g = hlib.relabel(rng, hlib.target_graph(rng, small=True))
    nodes, edges = set(g), {frozenset(e) for e in g.edges()}
    order0 = (list(g), list(g.edges()))
    seed = rng.randrange(100)
    h = pe.shuffle_graph(g, seed)
    h2 = pe.shuffle_graph(g, seed)
    yield dict(what="flag", name="shuffle", ok=set(h) == nodes and {frozenset(e) for e in h.edges()} == edges
               and (list(h), list(h.edges())) == (list(h2), list(h2.edges())) and (list(g), list(g.edges())) == order0)
    fam, m, t = lattice(rng)
    L = make("chimera", (m, rng.randint(1, 4), t), "int") if fam == "chimera" else build(fam, m, t)
    yield dict(what="flag", name="lattice-size",
               ok=pe.lattice_size(L) == max(L.graph["rows"], L.graph["columns"]))


# ------------------------------------------------------------------ the legacy entry points

def complete(left, right=None):
    g = nx.Graph()
    g.add_nodes_from(left)
    if right is None:
        g.add_edges_from(itertools.combinations(left, 2))
    else:
        g.add_nodes_from(right)
        g.add_edges_from((a, b) for a in left for b in right)
    return g


def embedded(S, T, call, has):
    row = dict(what="embedded", exc="", found=False, has=has, ns=len(S), sedges=[], tadj=[], emb=[])
    row.update(encode(S, T))
    try:
        e = call()
        row["found"] = e is not None
        if e is not None:
            row["emb"] = enc_emb(e, Ids(S), Ids(T))
    except Exception as e:
        row["exc"] = exception_name(e)
    return row


def shores(rng, a, b):
    """arguments for the shores of a biclique, and the labels they stand for"""
    how = rng.choice(["ints", "lists", "mixed", "strings"])
    if how == "ints":
        return a, b, list(range(a)), list(range(a, a + b))
    if how == "strings":
        l, r = ["a%d" % i for i in range(a)], ["b%d" % i for i in range(b)]
    elif how == "mixed":
        l, r = ["a%d" % i for i in range(a)], list(range(b))
        return l, b, l, r
    else:
        names = rng.sample(range(100), a + b)
        l, r = names[:a], names[a:]
    return l, r, l, r


def legacy(rng, k):
    import minorminer.utils.chimera as uc
    import minorminer.utils.pegasus as up
    import minorminer.utils.zephyr as uz
    from minorminer.busclique import busgraph_cache
    with fresh_cache(k):
        fam = rng.choice(["chimera", "chimera", "pegasus", "zephyr"])
        mod = {"chimera": uc, "pegasus": up, "zephyr": uz}[fam]
        if fam == "chimera":
            dims = (rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 2, 4]))
        else:
            dims = (rng.randint(1, 2) + (fam == "pegasus" and rng.random() < .7),)
            dims = (max(2, dims[0]),) if fam == "pegasus" else dims
        if fam == "pegasus" and dims[0] > 2:
            dims = (2,)
        T = make(fam, dims, "int")
        kw = {}
        how = rng.choice(["dims", "dims", "graph", "edges"])
        if how == "graph" or (how == "edges" and fam != "chimera"):
            T = defective(rng, T)
            kw["target_graph"] = T
        elif fam != "chimera":
            kw["m"] = dims[0]
        else:
            kw["m"] = dims[0]
            if dims[1] != dims[0] or rng.random() < .5:
                kw["n"] = dims[1]
            if dims[2] != 4 or rng.random() < .5:
                kw["t"] = dims[2]
            if how == "edges":
                T = defective(rng, T)
                kw["target_edges"] = list(T.edges())
                T = hlib.dw().chimera_graph(*dims, edge_list=kw["target_edges"])
        top = len(busgraph_cache(T).largest_clique())
        for _ in range(3):
            n = rng.randint(1, top + 2)
            names = list(range(n)) if rng.random() < .5 else rng.sample(range(50), n)
            arg = n if names == list(range(n)) else rng.choice([list, complete])(names)
            S = complete(names)
            yield embedded(S, T, lambda: mod.find_clique_embedding(arg, **kw), int(bool(busgraph_cache(T).find_clique_embedding(n))))
            a, b = rng.randint(1, top + 1), rng.randint(1, top + 1)
            l, r, ll, rl = shores(rng, a, b)

            def both():
                x, y = mod.find_biclique_embedding(l, r, **kw)
                if list(x) != ll or list(y) != rl:
                    return {}
                return {**x, **y}
            yield embedded(complete(ll, rl), T, both, int(bool(busgraph_cache(T).find_biclique_embedding(a, b))))
        if fam == "chimera" and rng.random() < .5:
            m, n, t = dims
            dim = [rng.randint(1, x + (rng.random() < .1)) for x in dims][:rng.randint(1, 3)]
            P = make("chimera", dims, "int")
            G = nx.grid_graph(dim[::-1])
            if len(dim) == 1:
                G = nx.path_graph(dim[0])
            fits = all(x <= y for x, y in zip(dim, dims))
            kw = dict(m=m)
            if n != m or rng.random() < .5:
                kw["n"] = n
            if t != 4 or rng.random() < .5:
                kw["t"] = t
            d = tuple(dim) if rng.random() < .5 else dim
            yield embedded(G, P, lambda: uc.find_grid_embedding(d, **kw), int(fits))


def processor(rng, k):
    """the deprecated processor of minorminer.utils.polynomialembedder"""
    import random
    import minorminer.utils.polynomialembedder as poly
    dims = (rng.randint(1, 3), rng.randint(1, 3), rng.choice([1, 2, 4]))
    coordinates = rng.random() < .4
    T = defective(rng, make("chimera", dims, "coordinate" if coordinates else "int"))
    if not T.number_of_edges():
        return
    random.seed(k)
    p = poly.processor(list(T.edges()), *dims, linear=not coordinates, proc_limit=rng.choice([4, 64]),
                       **({"random_bundles": True} if rng.random() < .3 else {}))

    def named(chains):
        return dict(enumerate(chains))

    def clique_row(chains, n):
        S = complete(range(n))
        return embedded(S, T, lambda: named(chains) if chains else None, -1)

    for _ in range(3):
        op = rng.choice(["largest", "tightest", "width", "bilargest", "bitightest"])
        if op == "largest":
            L = rng.choice([None, None, 1, 2, 3])
            e = p.largestNativeClique(max_chain_length=L)
            yield clique_row(e, len(e or ()))
            yield dict(what="flag", name="chain-length", ok=not e or L is None or max(map(len, e)) <= L)
        elif op == "tightest":
            n = rng.randint(1, 8)
            e = p.tightestNativeClique(n)
            yield clique_row(e, n)
        elif op == "width":
            w = rng.randint(1, min(dims[:2]))
            e = p.nativeCliqueEmbed(w)
            yield clique_row(e, len(e or ()))
        else:
            if op == "bilargest":
                r = p.largestNativeBiClique(chain_imbalance=rng.choice([0, 1, None]))
                a = b = None
            else:
                a, b = rng.randint(1, 6), rng.randint(1, 6)
                r = p.tightestNativeBiClique(a, b)
            if r is None:
                continue
            l, h = r[-1] if isinstance(r[0], (int, float, tuple)) and len(r) == 2 and not hasattr(r[0], "append") else r
            S = complete([("l", i) for i in range(len(l))], [("r", i) for i in range(len(h))])
            emb = {("l", i): c for i, c in enumerate(l)}
            emb.update({("r", i): c for i, c in enumerate(h)})
            yield embedded(S, T, lambda: emb, -1)
            if a is not None and l:
                yield dict(what="flag", name="shores", ok=sorted((len(l), len(h))) == sorted((a, b)))


if __name__ == "__main__":
    hlib.main({"diag": diag, "filter": filter_, "vectors": vectors, "bound": bound, "multi": multi,
               "sublattice": sublattice, "arrays": arrays, "legacy": legacy, "processor": processor})
