"""minorminer.layout: layout objects, the layouts that it computes, placements, and the
layout-aware search (spec/LayoutsJudge)."""

import math
import random

import networkx as nx
import numpy as np

import hlib
import utils
from busq import make
from hlib import Ids, enc_adj, enc_edges, enc_emb

import minorminer as mm
import minorminer.layout as mml
from minorminer.layout import placement as placing

U = 100


def units(p, u=U):
    return [int(round(float(x) * u)) for x in np.atleast_1d(p)]


def finite(p):
    return bool(np.all(np.isfinite(np.asarray(p, dtype=float))))


def seed_all(k):
    random.seed(k)
    np.random.seed(k)


def grid_value(rng, hi=8):
    return rng.randint(-4 * hi, 4 * hi) / 4


def point(rng, d, hi=8):
    return tuple(grid_value(rng, hi) for _ in range(d))


def some_graph(rng, lo=0, hi=7):
    n = rng.randint(lo, hi)
    g = nx.gnp_random_graph(n, rng.choice([0, .2, .5, 1]), seed=rng.randrange(10**6))
    order = list(range(n))
    if rng.random() < .6:
        rng.shuffle(order)
    h = nx.Graph()
    h.add_nodes_from(order)
    h.add_edges_from(g.edges())
    return h


# ------------------------------------------------------------------ layout objects

def state(L):
    nodes = sorted(L.G)
    return dict(pts=[units(L[v]) for v in nodes], arr=[units(p) for p in L.layout_array],
                c2=[2 * x for x in units(L.center)] if len(nodes) else [],
                s2=2 * units(L.scale)[0], dim=int(L.dim))


def history(rng, k):
    seed_all(k)
    g = some_graph(rng)
    n = len(g)
    d = rng.choice([1, 2, 2, 2, 3])
    kw = {}
    asked = dict(dim=0, center=[], scale=0)
    how = rng.choice(["dict", "dict", "dict", "function", "none", "p_norm"])
    base = []
    original = None
    if how == "dict":
        pts = {v: point(rng, d) for v in g}
        if n and rng.random() < .1:
            pts = {v: pts[next(iter(g))] for v in g}
        original = dict(pts)
        base = [units(pts[v]) for v in sorted(g)]
        if rng.random() < .3:
            pts = {v: np.array(p) for v, p in pts.items()}
        arg = pts
    elif how == "function":
        arg = rng.choice([nx.circular_layout, nx.spectral_layout, mml.p_norm])
        d = 2
    else:
        arg = None if how == "none" else mml.p_norm
        d = 2
    if rng.random() < .3:
        up = rng.choice([0, 0, 1]) if how in ("dict",) else 0
        kw["dim"] = asked["dim"] = d + up
    dd = asked["dim"] or d
    if rng.random() < .35 and (how == "dict" or n):
        kw["center"] = point(rng, dd)
        asked["center"] = [2 * x for x in units(kw["center"])]
    if rng.random() < .35:
        kw["scale"] = rng.choice([.25, .5, 1, 2, 3, 5.25])
        asked["scale"] = 2 * units(kw["scale"])[0]
    if rng.random() < .2:
        kw["pack_components"] = False
    if n == 0:
        asked = dict(dim=0, center=[], scale=0)
    L = mml.Layout(g, arg, **kw) if how != "none" or rng.random() < .5 else mml.Layout(g, **kw)
    steps = [dict(op=["start"], state=state(L))]
    for _ in range(rng.randint(0, 6)):
        now = L.dim if n else 2
        r = rng.random()
        if r < .25:
            c = point(rng, now)
            L.center = c if rng.random() < .7 else np.array(c)
            op = ["center", [2 * x for x in units(c)]]
        elif r < .5:
            s = rng.choice([.25, .5, 1, 2, 3, 4.75])
            L.scale = s
            op = ["scale", 2 * units(s)[0]]
        elif r < .65:
            e = now + rng.choice([0, 0, 1]) if now < 4 else now
            if n:
                L.dim = e
            op = ["dim", e]
        elif r < .8 and n:
            v = rng.choice(sorted(g))
            p = point(rng, now)
            L[v] = p if rng.random() < .5 else np.array(p)
            op = ["node", sorted(g).index(v) + 1, units(p)]
        elif r < .87 and n:
            pts = [point(rng, now) for _ in range(n)]
            L.layout_array = np.array(pts)
            op = ["array", [units(p) for p in pts]]
        elif r < .94 and n:
            pts = {v: point(rng, now) for v in g}
            L.layout = dict(pts)
            op = ["layout", [units(pts[v]) for v in sorted(g)]]
        elif n and now > 1:
            try:
                L.dim = now - 1
                refused = False
            except ValueError:
                refused = True
            op = ["refused", refused]
        else:
            continue
        steps.append(dict(op=op, state=state(L)))
    ok = len(L) == n and set(L) == set(g) and (original is None or {v: tuple(p) for v, p in arg.items()} == original)
    yield dict(what="history", n=n, asked=asked, base=base if how == "dict" else [], steps=steps, unmodified=ok)


def graph(rng, k):
    fam = rng.choice(["chimera", "pegasus", "zephyr"])
    dims = {"chimera": (rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)), "pegasus": (rng.randint(2, 3),),
            "zephyr": (rng.randint(1, 2), rng.randint(1, 3))}[fam]
    labels = rng.choice(["int", "coordinate"])
    G = make(fam, dims, labels)
    if rng.random() < .5:
        G.remove_nodes_from(rng.sample(sorted(G), rng.randint(0, len(G) - 1)))
    kw = {}
    d = 2
    if rng.random() < .4:
        d = kw["dim"] = rng.choice([2, 3])
    center = (0,) * d
    if rng.random() < .4:
        center = kw["center"] = point(rng, d)
    scale = max(G.graph["rows"], G.graph["columns"]) / 2
    if rng.random() < .4:
        scale = kw["scale"] = rng.choice([.5, 1, 4, 7.25])
    via = rng.random()
    if via < .5:
        lay = mml.graph_layout(G, **kw)
    else:
        lay = mml.Layout(G, **kw) if via < .8 else mml.Layout(G, mml.graph_layout, pack_components=False, **kw)
    pts = [units(lay[v]) for v in sorted(G)]
    # where the qubits of the lattice have one coordinate, so has the layout
    perfect = getattr(__import__("dwave.graphs", fromlist=["x"]), fam + "_layout")(G)
    flat = [len({str(round(float(perfect[v][j]), 9)) for v in G}) == 1 for j in range(2)] + [True] * (d - 2)
    yield dict(what="graph", pts=pts, dim=d, c2=[2 * x for x in units(center)], s2=2 * units(scale)[0], flat=flat)


def pnorm(rng, k):
    seed_all(k)
    g = some_graph(rng, 2, 7)
    n = len(g)
    d = rng.choice([1, 2, 2, 2, 3])
    p = rng.choice([2, 2, 2, 1, "inf"]) if d == 2 else rng.choice([2, 2, 1])
    kw = dict(p=float("inf") if p == "inf" else p)
    if d != 2 or rng.random() < .3:
        kw["dim"] = d
    start = {v: point(rng, d, 3) for v in g} if rng.random() < .7 else None
    if start and len(set(start.values())) < n:
        start = None
    if start:
        kw["starting_layout"] = dict(start)
    center = (0,) * d
    if rng.random() < .3:
        center = kw["center"] = point(rng, d, 2)
    nodes = sorted(g)
    given = []
    if rng.random() < .3:
        dist = {u: dict(x) for u, x in nx.all_pairs_shortest_path_length(g)}
        if rng.random() < .7:          # distances of the caller's own
            for u in g:
                for v in list(dist[u]):
                    if u < v:
                        dist[u][v] = dist[v][u] = rng.randint(1, 4)
        kw["G_distances"] = dist
        given = [[dist[u].get(v, n) for v in nodes] for u in nodes]
    out = mml.p_norm(g, **kw)
    ids = Ids(nodes)
    enc = [units(out[v], 1000) for v in nodes]

    def dists(lay):
        return [[int(round(1000 * math.dist(lay[u], lay[v]))) for v in nodes] for u in nodes]
    if not all(finite(out[v]) for v in nodes) or max(abs(x) for p in enc for x in p) > 15000:
        raise AssertionError("a layout out of all bounds: %r" % out)
    yield dict(what="pnorm", n=n, p=0 if p == "inf" else p, adj=enc_adj(g, ids), given=given, out=enc, outd=dists(out),
               start=[units(start[v], 1000) for v in nodes] if start else [], startd=dists(start) if start else [],
               c2=[2 * x for x in units(center, 1000)], slack=100 if d > 1 else 10**9)


def pack(rng, k):
    seed_all(k)
    parts = []
    for _ in range(rng.randint(1, 5)):
        m = rng.choice([1, 1, 2, 3, 4, 5])
        parts.append(rng.choice([nx.path_graph, nx.cycle_graph, nx.complete_graph])(m) if m > 2 else nx.path_graph(m))
    g = nx.disjoint_union_all(parts)
    if rng.random() < .5:
        order = list(g)
        rng.shuffle(order)
        h = nx.Graph()
        h.add_nodes_from(order)
        h.add_edges_from(g.edges())
        g = h
    kw = {}
    if rng.random() < .4:
        kw["scale"] = rng.choice([1, 2.5, 6])
    fn = rng.choice([None, mml.p_norm, nx.circular_layout, mml.p_norm])
    L = mml.Layout(g, fn, **kw)
    nodes = sorted(g)
    ids = Ids(nodes)
    yield dict(what="pack", pts=[units(L[v]) for v in nodes], comps=[[ids[v] for v in c] for c in nx.connected_components(g)],
               scale=2 * units(kw.get("scale", 0))[0])


def boxes(rng, k):
    import minorminer._extern.rpack as rpack
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12])
    hi = rng.choice([1, 2, 3, 5, 9, 20])
    sizes = [(rng.randint(1, hi), rng.randint(1, hi)) for _ in range(n)]
    arg = sizes if rng.random() < .7 else tuple(list(s) for s in sizes)
    kw = {}
    W, H = sum(w for w, h in sizes), sum(h for w, h in sizes)
    if n and rng.random() < .5:
        r = rng.random()
        if r < .7:
            kw["max_width"] = rng.randint(max(w for w, h in sizes) - (r < .1), W)
        if r > .4:
            kw["max_height"] = rng.randint(max(h for w, h in sizes), H)
    if kw.get("max_width") == 0:
        kw["max_width"] = 1
    try:
        pos = rpack.pack(arg, **kw)
    except rpack.PackingImpossibleError:
        # one column of boxes, or one row of them, would have done
        row = W <= kw.get("max_width", W) and max(h for w, h in sizes) <= kw.get("max_height", H)
        col = H <= kw.get("max_height", H) and max(w for w, h in sizes) <= kw.get("max_width", W)
        yield dict(what="flag", name="impossible", ok=bool(kw) and not row and not col)
        return
    b = [[x, y, w, h] for (x, y), (w, h) in zip(pos, sizes)]
    size = []
    if kw:
        size = [kw.get("max_width", 10**6), kw.get("max_height", 10**6)]
    yield dict(what="boxes", boxes=b, n=n, size=size)
    if n:
        w, h = rpack.bbox_size(sizes, pos)
        yield dict(what="boxes", boxes=b, n=n, size=[w, h])
        yield dict(what="flag", name="tight", ok=any(x + z == w for x, y, z, _ in b) and any(y + z == h for x, y, _, z in b))
        yield dict(what="flag", name="overlapping", ok=rpack.overlapping(sizes, pos) is None)
        moved = list(pos)
        i, j = rng.randrange(n), rng.randrange(n)
        moved[i] = moved[j]
        hit = rpack.overlapping(sizes, moved)
        yield dict(what="flag", name="overlapping-ij", ok=(hit is not None and hit[0] != hit[1]) == (i != j))
        yield dict(what="flag", name="density", ok=abs(rpack.packing_density(sizes, pos) * w * h
                                                     - sum(a * b for a, b in sizes)) < 1e-6)


# ------------------------------------------------------------------ placements

def keeps(rng, place):
    """a copy of a placement is the mapping that a dict is, whatever is done to it"""
    twin = dict(place)
    p = mml.Placement(place.S_layout, place.T_layout, dict(twin))
    ok = True
    for _ in range(4):
        v = rng.choice(sorted(twin)) if twin and rng.random() < .8 else rng.randint(50, 52)
        if v in twin and rng.random() < .3:
            del p[v], twin[v]
        else:
            p[v] = twin[v] = frozenset(rng.sample(range(9), rng.randint(1, 3)))
        ok = ok and dict(p) == twin and len(p) == len(twin) and list(p) == list(twin) and all(p[u] == twin[u] for u in twin)
    return ok


def closest(rng, k):
    seed_all(k)
    S = some_graph(rng, 1, 6)
    T = some_graph(rng, 1, 8)
    d = rng.choice([1, 2, 2, 3])
    hi_ = rng.choice([1, 2, 4])
    # whole numbers, so that ties are ties
    sp = {v: tuple(rng.randint(-hi_, hi_) for _ in range(d)) for v in S}
    tp = {v: tuple(rng.randint(-hi_, hi_) for _ in range(d)) for v in T}
    lo = rng.choice([1, 1, 1, 2])
    hi = rng.randint(lo, 3)
    if lo > 1 and not T.number_of_edges():
        lo = 1
    nn = rng.choice([1, 1, 2, 3, 10])
    SL, TL = mml.Layout(S, dict(sp)), mml.Layout(T, dict(tp))
    mapping, kw = True, {}
    if (lo, hi) != (1, 1) or rng.random() < .3:
        kw["subset_size"] = (lo, hi)
    if nn > 1 or rng.random() < .3:
        kw["num_neighbors"] = nn
    before = {v: tuple(SL[v]) for v in S}, {v: tuple(TL[v]) for v in T}
    if rng.random() < .6:
        place = mml.closest(SL, TL, **kw)
    else:
        SL.scale, scale = SL.scale, SL.scale
        if SL.scale > TL.scale:
            return
        place = mml.Placement(SL, TL, mml.closest, **kw)
        mapping = keeps(rng, place)
    tid = Ids(sorted(T))
    yield dict(what="closest", spts=[list(sp[v]) for v in sorted(S)], tpts=[list(tp[v]) for v in sorted(T)],
               tadj=enc_adj(T, tid), lo=lo, hi=hi, k=nn, dim=d,
               mapping=mapping, order=[sorted(S).index(v) + 1 for v in SL],
               place=[sorted(tid[q] for q in place[v]) for v in sorted(S) if v in place], distinct=len(set(tp.values())) == len(T),
               unmodified=before == ({v: tuple(SL[v]) for v in S}, {v: tuple(TL[v]) for v in T}))


def cross(rng, k):
    dg = hlib.dw()
    seed_all(k)
    fam = rng.choice(["chimera", "chimera", "pegasus", "zephyr"])
    dims = {"chimera": (rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 4)), "pegasus": (rng.randint(2, 3),),
            "zephyr": (rng.randint(1, 2), rng.randint(1, 2))}[fam]
    labels = rng.choice(["int", "coordinate"])
    T = make(fam, dims, labels)
    if fam != "zephyr" and rng.random() < .25 and labels == "int":
        T = {"chimera": dg.chimera_graph, "pegasus": dg.pegasus_graph}[fam](*dims, data=False)
    elif fam == "zephyr" and rng.random() < .25 and labels == "int":
        T = dg.zephyr_graph(*dims, data=False)
    elif fam == "pegasus" and rng.random() < .2:
        T = dg.pegasus_graph(*dims, nice_coordinates=True, data=rng.random() < .5)
        labels = "nice"
    full = len(T)
    if rng.random() < .4:
        T.remove_nodes_from(rng.sample(sorted(T), rng.randint(0, len(T) // 3)))
    m, n, t = T.graph["rows"], T.graph["columns"], T.graph["tile"]
    nodes = sorted(T)
    if fam == "chimera":
        conv = dg.chimera_coordinates(m, n, t).linear_to_chimera
        lines, cell = t * min(m, n), t
    elif fam == "pegasus":
        pc = dg.pegasus_coordinates(m)
        conv = pc.nice_to_pegasus if labels == "nice" else pc.linear_to_pegasus
        lines, cell = t * m, t
    else:
        conv = dg.zephyr_coordinates(m, t).linear_to_zephyr
        lines, cell = 2 * t * (2 * m + 1), 2 * t
    coords = [list(v if labels == "coordinate" else conv(v)) for v in nodes]
    S = some_graph(rng, 1, 6)
    # whole numbers over eight
    sp = {v: tuple(rng.randint(-16, 16) / 8 for _ in range(2)) for v in S}
    SL, TL = mml.Layout(S, dict(sp)), mml.Layout(T)
    place = mml.Placement(SL, TL, mml.intersection) if rng.random() < .5 and SL.scale <= TL.scale else mml.intersection(SL, TL)
    tid = Ids(nodes)
    off = []
    if fam == "pegasus":
        off = [list(T.graph["vertical_offsets"]), list(T.graph["horizontal_offsets"])]
    yield dict(what="cross", fam=fam, t=t, coords=coords, offsets=off, unit=8, lines=lines, cell=cell,
               spts=[[int(8 * x) for x in sp[v]] for v in sorted(S)],
               place=[sorted(tid[q] for q in place[v]) for v in sorted(S) if v in place])


# ------------------------------------------------------------------ the search

def comparable(g):
    try:
        sorted(g)
        return True
    except TypeError:
        return False


def place(rng, k):
    seed_all(k)
    dw = rng.random() < .6
    if dw:
        fam = rng.choice(["chimera", "chimera", "pegasus", "zephyr"])
        dims = {"chimera": (rng.randint(1, 2), rng.randint(1, 2), rng.choice([2, 4])), "pegasus": (2,),
                "zephyr": (1, rng.choice([1, 2]))}[fam]
        T = make(fam, dims, rng.choice(["int", "coordinate"]))
        if rng.random() < .3:
            T.remove_nodes_from(rng.sample(sorted(T), rng.randint(0, len(T) // 4)))
    else:
        T = hlib.target_graph(rng, small=True)
        T = nx.convert_node_labels_to_integers(T)
        T.graph.clear()
        if rng.random() < .5:
            T = nx.relabel_nodes(T, {v: "t%02d" % v for v in T})
    # chains outside of the component that the search uses are not its inputs
    T.remove_nodes_from([q for c in sorted(nx.connected_components(T), key=len)[:-1] for q in c])
    S = some_graph(rng, 0 if rng.random() < .1 else 1, 6)
    if len(S) > len(T):
        return
    given_S, given_T = S, T
    if rng.random() < .15 and S.number_of_edges() and not nx.number_of_isolates(S):
        given_S = list(S.edges())
    if not dw and rng.random() < .3 and T.number_of_edges() and not nx.number_of_isolates(T):
        given_T = rng.choice([list(T.edges()), {v: list(T[v]) for v in T}])
    args = dict(random_seed=rng.randrange(1000), tries=rng.choice([1, 3]))
    refuse = ""
    kw = {}
    lay_kw = {}
    d = 2
    want_s = want_t = None
    r = rng.random()
    if r < .35:
        pass
    elif r < .5:
        kw["layout"] = rng.choice([nx.circular_layout, nx.spectral_layout, mml.p_norm])
    elif r < .6:
        kw["layout"] = (rng.choice([mml.p_norm, nx.circular_layout]), rng.choice([nx.circular_layout, None]))
    elif r < .75:
        want_s = {v: point(rng, 2, 2) for v in S}
        kw["layout"] = (dict(want_s), None)
    elif r < .9:
        want_s = {v: point(rng, 2, 2) for v in S}
        want_t = {v: point(rng, 2, 2) for v in T}
        kw["layout"] = (mml.Layout(S, dict(want_s)) if rng.random() < .5 else dict(want_s), dict(want_t))
    elif r < .97:
        want_t = {v: point(rng, 2, 2) for v in T}
        kw["layout"] = (mml.p_norm, mml.Layout(T, dict(want_t)))
    else:
        kw["layout"] = (mml.p_norm, None, None)
        refuse = "ValueError"
    if "layout" not in kw or callable(kw["layout"]):
        if rng.random() < .25:
            lay_kw["scale"] = rng.choice([1, 3.5])
        if rng.random() < .15:
            lay_kw["center"] = point(rng, 2, 2)
    fn = rng.choice([None, mml.closest, mml.closest, mml.intersection if dw else mml.closest, "dict"])
    p_kw = {}
    given = None
    if fn == "dict":
        given = {v: rng.sample(sorted(T), min(len(T), rng.randint(1, 3))) for v in S}
        kw["placement"] = dict(given)
    elif fn is not None:
        kw["placement"] = fn
        if fn is mml.closest:
            if rng.random() < .4 and max(dict(T.degree()).values(), default=0) < 12:
                p_kw["subset_size"] = rng.choice([(1, 1), (1, 2)])
            if rng.random() < .4:
                p_kw["num_neighbors"] = rng.choice([1, 2, 5])
    if rng.random() < .25:
        p_kw["scale_ratio"] = rng.choice([.5, .8, 1])
    hint = rng.choice(["initial_chains", "initial_chains", "suspend_chains"])
    if hint != "initial_chains" or rng.random() < .2:
        kw["mm_hint_type"] = hint
    if rng.random() < .02:
        kw["mm_hint_type"], refuse = "fixed_chains", "ValueError"
    sid, tid = Ids(sorted(S)), Ids(sorted(T))
    row = dict(what="place", ns=len(S), sedges=enc_edges(S, sid), tadj=enc_adj(T, tid), emb=[], exc="", refuse=refuse,
               suspended=hint == "suspend_chains", place=[[] for _ in S], same=True, layouts=True, unmodified=True)
    before = utils.snapshot(S, T)
    try:
        emb, (SL, TL) = mml.find_embedding(given_S, given_T, return_layouts=True, **kw, **lay_kw, **p_kw, **args)
    except (ValueError, TimeoutError) as e:
        row["exc"] = type(e).__name__
        yield row
        return
    except RuntimeError as e:           # the search is over-constrained
        if hint == "suspend_chains" and "initialization" in str(e):
            return
        raise
    row["emb"] = enc_emb(emb, sid, tid)
    row["unmodified"] = before == utils.snapshot(S, T)
    P = mml.Placement(SL, TL, given if given is not None else kw.get("placement", mml.closest), **p_kw)
    row["place"] = [sorted(tid[q] for q in P[v]) for v in sorted(S)]
    more = dict(initial_chains=dict(P)) if hint == "initial_chains" else \
        dict(suspend_chains={v: [c] for v, c in P.items()})
    row["same"] = any({v: sorted(c) for v, c in emb.items()} == {v: sorted(c) for v, c in again.items()}
                      for again in (mm.find_embedding(A, B, **more, **args)
                                    for A, B in ((S, T), (given_S, given_T),
                                                 tuple(g if hasattr(g, "nodes") else nx.Graph(g) for g in (given_S, given_T)))
                      if not isinstance(B, dict)))
    ok = set(SL) == set(S) and set(TL) == set(T)
    if len(S):
        for L, want in ((SL, want_s), (TL, want_t)):
            if want is not None:
                ok = ok and all(np.allclose(L[v], want[v]) for v in want)
        for L in (SL, TL):
            if L is SL and want_s is not None or L is TL and want_t is not None:
                continue
            ok = ok and L.dim == d
            # packed components end up where they fit; a layout has the scale that was asked for
            if "scale" in lay_kw and len(L) > 1:
                ok = ok and abs(L.scale - lay_kw["scale"]) < 1e-6
            if "center" in lay_kw:
                ok = ok and np.allclose(L.center, lay_kw["center"])
    row["layouts"] = bool(ok)
    yield row


if __name__ == "__main__":
    hlib.main({"history": history, "graph": graph, "pnorm": pnorm, "pack": pack, "boxes": boxes, "closest": closest,
               "cross": cross, "place": place})
