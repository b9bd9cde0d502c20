"""Calls of find_embedding through the Python API, one row per call (spec/ApiJudge)."""

import signal

import networkx as nx
import hlib
from hlib import (Ids, as_input, enc_adj, enc_edges, enc_emb, enc_map, relabel,
                  source_graph, target_graph)
from minorminer import find_embedding, miner

#: exceptions that no documented behaviour explains
BUGS = (KeyError, IndexError, TypeError, AttributeError, NameError, SystemError,
        MemoryError, ZeroDivisionError, AssertionError, OverflowError, UnicodeError)


class Problem:
    def __init__(self, rng, hi=9, small=False):
        self.rng = rng
        self.S = relabel(rng, source_graph(rng, hi))
        self.T = relabel(rng, target_graph(rng, small))
        self.sid, self.tid = Ids(self.S), Ids(self.T)
        self.params = {}
        # the part of the target in which the search takes place
        comps = sorted(nx.connected_components(self.T), key=len, reverse=True)
        self.unique = len(comps) < 2 or len(comps[0]) > len(comps[1]) if comps else False
        self.main = sorted(comps[0], key=lambda v: self.tid[v]) if comps else []

    def knobs(self):
        rng, p = self.rng, {}
        p["random_seed"] = rng.randrange(2**31)
        p["timeout"] = 15
        p["tries"] = rng.choice([1, 2, 3])
        if rng.random() < .5:
            p["max_no_improvement"] = rng.choice([1, 2, 3, 10])
        if rng.random() < .5:
            p["chainlength_patience"] = rng.choice([0, 1, 2, 5])
        if rng.random() < .3:
            p["inner_rounds"] = rng.choice([1, 2, 5, 50])
        if rng.random() < .3:
            p["max_beta"] = rng.choice([1.5, 2, 10, 1e6])
        if rng.random() < .25:
            p["threads"] = rng.choice([2, 3, 5])
        if rng.random() < .2:
            p["verbose"] = rng.choice([1, 2, 3])
        return p

    def chain_from(self, allowed, size):
        """A connected set of up to `size` nodes within `allowed`."""
        allowed = [q for q in allowed]
        if not allowed:
            return []
        rng, aset = self.rng, set(allowed)
        c = [rng.choice(allowed)]
        while len(c) < size:
            b = sorted({w for q in c for w in self.T[q] if w in aset} - set(c),
                       key=lambda v: self.tid[v])
            if not b:
                break
            c.append(rng.choice(b))
        return c

    def ball(self, size):
        return self.chain_from(self.main, size)

    def call(self, overlap=None, kind="call", fn=None, init_ref=None, inputs=None, **kw):
        rng = self.rng
        if kind != "patience":
            kw = {**self.knobs(), **kw}
        if overlap is None:
            overlap = rng.random() < .25
        if overlap or rng.random() < .1:
            kw["return_overlap"] = bool(overlap)
        if inputs is None:
            inputs = as_input(rng, self.S)[0], as_input(rng, self.T)[0]
        s_in, t_in = inputs
        row = {"ns": len(self.sid), "nt": len(self.tid), "sedges": enc_edges(self.S, self.sid),
               "tadj": enc_adj(self.T, self.tid), "overlap": int(bool(overlap)),
               "fixed": enc_map({v: c for v, c in kw.get("fixed_chains", {}).items() if c},
                                self.sid, self.tid),
               "restr": enc_map({v: c for v, c in kw.get("restrict_chains", {}).items() if c},
                                self.sid, self.tid),
               "blobs": [[self.sid[v], [self.tid[q] for q in b]]
                         for v, bs in kw.get("suspend_chains", {}).items() for b in bs],
               "maxfill": (kw.get("max_fill") or 0) if not kw.get("initial_chains") else 0,
               "init": enc_emb(init_ref, self.sid, self.tid) if init_ref else [],
               "params": {k: v for k, v in kw.items() if not k.endswith("_chains")},
               "free": int(not any(k.endswith("_chains") or k == "max_fill" for k in kw)
                           and len(self.T) > 0),
               "what": kind, "bug": 0, "flag": -1, "emb": [], "ret": "other"}
        res = None
        try:
            res = (fn or find_embedding)(s_in, t_in, **kw)
        except Exception as e:        # noqa: BLE001
            row["ret"] = "exc"
            row["exc"] = type(e).__name__ + ": " + str(e)[:120]
            row["bug"] = int(isinstance(e, BUGS) or "may be invalid" in str(e))
            return row, None
        if isinstance(res, dict):
            row["ret"] = "dict"
        elif isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], dict):
            row["ret"], row["flag"], res = "pair", int(res[1]), res[0]
        else:
            return row, None
        row["emb"] = enc_emb(res, self.sid, self.tid)
        return row, res


def via_miner(s, t, **kw):
    m = miner(s, t, **kw)
    return m.find_embedding()


def good(row, emb):
    return bool(emb) and (row["ret"] == "dict" or row["flag"] == 1)


def plain(rng, k):
    P = Problem(rng)
    if not P.tid:
        return
    fn = via_miner if rng.random() < .25 else None
    row, emb = P.call(fn=fn)
    if not (row["ret"] == "exc" and fn and not len(P.S)):
        yield row
    if rng.random() < .3:
        yield P.call(kind="again")[0]


def hard(rng, k):
    """Problems that tend not to be solved: overlaps are reported."""
    P = Problem(rng, hi=rng.choice([6, 9, 12]), small=True)
    if not P.tid:
        return
    kw = {}
    if rng.random() < .5:
        kw = dict(tries=1, max_no_improvement=rng.choice([1, 2]))
    row, emb = P.call(overlap=rng.random() < .9, **kw)
    yield row
    if emb and row["ret"] == "pair" and any(emb.values()) and P.unique:
        # an overlapped embedding is semi-valid: it may be used to start again from
        skip = rng.random() < .5
        row2, emb2 = P.call(overlap=True, kind="resume", initial_chains=emb,
                            skip_initialization=skip)
        if row2["ret"] == "exc":
            row2["init"] = [[0, [0]]]     # judged as `lost'
        if good(row, emb):
            row2["init"] = row["emb"]
        yield row2


def some_embedding(P):
    row, emb = P.call(overlap=False, kind="seed", tries=3)
    return (row, emb) if good(row, emb) else (row, None)


def pick_fixed(P, emb=None):
    rng = P.rng
    fixed = {}
    vs = sorted(P.S, key=lambda v: P.sid[v])
    rng.shuffle(vs)
    if len(vs) < 2 or not P.main:
        return {}
    some = vs[:rng.randint(1, max(1, len(vs) - 1))]
    if rng.random() < .6:
        some = some[:2]
    if emb and rng.random() < .7:
        for v in some:
            fixed[v] = list(emb[v])
            rng.shuffle(fixed[v])
    else:
        free = set(P.main)
        for v in some:
            c = P.chain_from(sorted(free, key=lambda q: P.tid[q]), rng.randint(1, 3))
            if c:
                fixed[v] = c
                free -= set(c)
    if rng.random() < .2:
        for v in vs[-2:]:
            fixed.setdefault(v, [])      # an empty entry is ignored
    if len([v for v in fixed if fixed[v]]) >= len(vs):
        return {}
    return fixed


def fixed(rng, k):
    P = Problem(rng, hi=7)
    if not P.main or not P.unique:
        return
    row, emb = some_embedding(P)
    yield row
    fx = pick_fixed(P, emb)
    if not fx:
        return
    kw = {"fixed_chains": fx}
    if emb and rng.random() < .5:
        # starting chains that run into the fixed ones
        ic = {}
        for v in P.S:
            if rng.random() < .6:
                ic[v] = list(rng.choice([emb[v], P.ball(rng.randint(1, 3)),
                                         rng.choice(list(fx.values())) or emb[v]]))
        kw["initial_chains"] = ic
        kw["skip_initialization"] = rng.random() < .3
    yield P.call(overlap=rng.random() < .5, fn=via_miner if rng.random() < .2 else None, **kw)[0]
    if emb and rng.random() < .5:
        yield P.call(overlap=rng.random() < .5, fixed_chains=fx, initial_chains=emb,
                     skip_initialization=rng.random() < .5)[0]


def pick_restrict(P, emb=None):
    rng, restr = P.rng, {}
    for v in P.S:
        if rng.random() < rng.choice([.3, .6, 1]):
            if emb and rng.random() < .6:
                extra = P.ball(rng.randint(1, 6))
                restr[v] = list(dict.fromkeys(list(emb[v]) + extra))
            else:
                restr[v] = P.ball(rng.randint(1, max(2, len(P.main) // 2)))
            rng.shuffle(restr[v])
    if restr and rng.random() < .2:
        restr[rng.choice(sorted(restr, key=lambda v: P.sid[v]))] = []
    return restr


def restrict(rng, k):
    P = Problem(rng, hi=7)
    if not P.main or not P.unique:
        return
    row, emb = some_embedding(P)
    if rng.random() < .3:
        # one domain for everybody: nobody can leave it
        d = P.ball(rng.randint(1, len(P.main)))
        if emb and rng.random() < .5:
            d = list(dict.fromkeys(d + [q for c in emb.values() for q in c]))
        restr = {v: d for v in P.S}
    else:
        restr = pick_restrict(P, emb)
    if not any(restr.values()):
        return
    kw = {"restrict_chains": restr}
    if rng.random() < .3:
        fx = pick_fixed(P, emb)
        if fx:
            kw["fixed_chains"] = fx
    if rng.random() < .3:
        kw["initial_chains"] = {v: (list(emb[v]) if emb and rng.random() < .5
                                    else P.ball(rng.randint(1, 3)))
                                for v in P.S if rng.random() < .7}
        kw["skip_initialization"] = rng.random() < .3
    yield P.call(overlap=rng.random() < .5, fn=via_miner if rng.random() < .2 else None, **kw)[0]
    if emb:
        # domains of the chains of a known embedding, with room
        yield P.call(overlap=False, restrict_chains={
            v: list(dict.fromkeys(list(emb[v]) + [w for q in emb[v] for w in P.T[q]]))
            for v in P.S if rng.random() < .8})[0]


def suspend(rng, k):
    P = Problem(rng, hi=7)
    if not P.main or not P.unique:
        return
    row, emb = some_embedding(P)
    yield row
    sus = {}
    for v in P.S:
        if rng.random() < .5:
            blobs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if emb and rng.random() < .6:
                    b = [rng.choice(list(emb[v]))] + rng.sample(P.main, min(2, len(P.main)))
                    b = list(dict.fromkeys(b))
                else:
                    b = rng.sample(P.main, rng.randint(1, max(1, len(P.main) // 2)))
                if rng.random() < .1:
                    b = []
                rng.shuffle(b)
                blobs.append(rng.choice([list, tuple, set, frozenset])(b))
            sus[v] = blobs
    if not any(b for bs in sus.values() for b in bs):
        return
    kw = {"suspend_chains": sus}
    if rng.random() < .25:
        fx = pick_fixed(P, emb)
        fx = {v: c for v, c in fx.items() if v not in sus}
        if fx:
            kw["fixed_chains"] = fx
    if rng.random() < .2:
        kw["initial_chains"] = {v: (list(emb[v]) if emb else P.ball(2)) for v in P.S
                                if rng.random() < .5}
    yield P.call(overlap=rng.random() < .5, fn=via_miner if rng.random() < .3 else None, **kw)[0]


def fill(rng, k):
    P = Problem(rng, hi=rng.choice([6, 9, 12]), small=rng.random() < .8)
    if not P.main:
        return
    kw = {"max_fill": rng.choice([1, 1, 2, 2, 3, 4, 8])}
    if rng.random() < .3:
        kw["tries"] = 1
    if rng.random() < .4 and P.unique:
        fx = pick_fixed(P)
        if fx:
            kw["fixed_chains"] = fx
    if rng.random() < .15:
        r = pick_restrict(P)
        if any(r.values()) and P.unique:
            kw["restrict_chains"] = r
    yield P.call(overlap=True, **kw)[0]


def improve(rng, k):
    """Handing a valid embedding to a search: it comes back no worse."""
    P = Problem(rng, hi=9)
    if not P.tid:
        return
    row, emb = P.call(overlap=False, chainlength_patience=rng.choice([0, 0, 1]), tries=5)
    yield row
    if not good(row, emb) or not P.unique:
        return
    cur = emb
    if rng.random() < .4:           # fatten the chains: more room for improvement
        used = {q for c in cur.values() for q in c}
        cur = {v: list(c) for v, c in cur.items()}
        for v in cur:
            for q in list(cur[v]):
                for w in P.T[q]:
                    if w not in used and rng.random() < .3:
                        cur[v].append(w)
                        used.add(w)
    for _ in range(rng.randint(1, 3)):
        ic = {v: list(c) for v, c in cur.items()}
        for c in ic.values():
            rng.shuffle(c)
        kw = {}
        if rng.random() < .2:
            v = rng.choice(sorted(ic, key=lambda v: P.sid[v]))
            if len(ic) > 1:
                kw["fixed_chains"] = {v: list(ic[v])}
        row, new = P.call(kind="improve", initial_chains=ic, init_ref=cur,
                          skip_initialization=rng.random() < .5,
                          fn=via_miner if rng.random() < .3 else None, **kw)
        yield row
        if not good(row, new):
            return
        cur = new
    # more patience with the same seed goes on from where less patience stopped
    kn = P.knobs()
    kn["tries"] = 3
    same = P.S, P.T
    a, ea = P.call(kind="patience", overlap=False, inputs=same,
                   **{**kn, "chainlength_patience": 0})
    if good(a, ea):
        yield P.call(kind="patience", overlap=False, init_ref=ea, inputs=same,
                     **{**kn, "chainlength_patience": rng.randint(1, 6)})[0]


def roomy(rng, k):
    """Improving embeddings whose chains have many lengths, again and again: ties among the
    longest chains, decided further down the histogram."""
    n = rng.randint(6, 9)
    T = nx.convert_node_labels_to_integers(nx.grid_2d_graph(n, n))
    if rng.random() < .8:
        T.add_edges_from((i, i + n + 1) for i in range(n * (n - 1) - 1) if i % n != n - 1)
    S = nx.gnp_random_graph(rng.randint(7, 11), rng.choice([.3, .4, .5]),
                            seed=rng.randrange(2**31))
    P = Problem(rng)
    P.S, P.T = S, T
    P.sid, P.tid, P.main, P.unique = Ids(S), Ids(T), list(T), True
    same = S, T
    row, emb = P.call(overlap=False, kind="seed", inputs=same, tries=10,
                      chainlength_patience=rng.choice([0, 0, 1]))
    yield row
    if not good(row, emb):
        return
    for _ in range(6):
        row, new = P.call(kind="improve", overlap=False, initial_chains=emb, init_ref=emb,
                          inputs=same, skip_initialization=rng.random() < .9, tries=1,
                          chainlength_patience=rng.choice([1, 2, 4]))
        yield row


def exact(rng, k):
    """Everything at once, exactly feasible: all the constraints are read off an embedding."""
    P = Problem(rng, hi=7)
    if not P.main or not P.unique:
        return
    row, emb = some_embedding(P)
    yield row
    if not emb:
        return
    kw = {}
    vs = sorted(P.S, key=lambda v: P.sid[v])
    if len(vs) > 1 and rng.random() < .5:
        kw["fixed_chains"] = {v: list(emb[v]) for v in rng.sample(vs, rng.randint(1, len(vs) - 1))}
    if rng.random() < .5:
        kw["restrict_chains"] = {v: list(emb[v]) + P.ball(3) for v in vs if rng.random() < .5}
    if rng.random() < .5:
        kw["suspend_chains"] = {v: [[rng.choice(list(emb[v]))]] for v in vs
                                if rng.random() < .4 and v not in kw.get("fixed_chains", {})}
    if rng.random() < .5:
        kw["initial_chains"] = {v: list(emb[v]) for v in vs if rng.random() < .5}
    yield P.call(**kw)[0]


class Weird:
    """An object that behaves badly in some way."""

    def __init__(self, how):
        self.how = how

    def __iter__(self):
        if self.how == "iter":
            raise RuntimeError("iter")
        return iter([(0, 1)])

    def __hash__(self):
        if self.how == "hash":
            raise TypeError("unhashable")
        return 7

    def __bool__(self):
        if self.how == "bool":
            raise RuntimeError("bool")
        return True

    def __int__(self):
        if self.how == "int":
            raise RuntimeError("int")
        return 2

    def __float__(self):
        return float("nan")

    def items(self):
        if self.how == "items":
            raise RuntimeError("items")
        return [(0, [[1]])]


def late_error(pairs):
    yield from pairs
    raise RuntimeError("late")


NUMBERS = [0, 1, 2, -1, -2, -7, 10**3, 2**31 - 1, -2**31, 2**31, 2**40, 2**64, 1.5, 0.0, -0.5,
           float("nan"), float("inf"), float("-inf"), "1", "x", True, False, [], None, b"3"]
# values which merely ask for a lot of work or memory are not mistakes
TAME = dict(tries=[0, 1, 2, -1, -5, 1.5, "2", "x", None, True, -2**31, float("nan")],
            threads=[0, 1, 2, 3, 7, -1, -3, "x", None, 2.5, float("inf"), -2**31],
            timeout=[0, 1, 5, -1, -0.5, 1e-9, "1", "x", None, float("nan"), True])


def garbage(rng, k):
    """Calls with mistakes in them: whatever is wrong, there is a reply or an exception."""
    P = Problem(rng, hi=6, small=True)
    S, T = P.S, P.T
    kw = {"random_seed": rng.randrange(2**31), "timeout": 2, "tries": 2}
    for name in ["max_no_improvement", "random_seed", "timeout", "tries", "verbose", "max_fill",
                 "chainlength_patience", "return_overlap", "skip_initialization", "inner_rounds",
                 "threads", "max_beta", "interactive"]:
        if rng.random() < (.06 if name != "skip_initialization" else .2):
            kw[name] = rng.choice(TAME.get(name, NUMBERS))
    if kw.get("tries") in (-1, -5, -2**31):
        # counting down from there takes a while when a trial is nothing at all
        kw.pop("inner_rounds", None)
        kw.pop("max_no_improvement", None)
    if kw.get("max_no_improvement") in (10**3, 2**31 - 1) or \
            kw.get("chainlength_patience") in (2**31 - 1,):
        kw["timeout"] = 1
    slabels = list(S) + ["nowhere", (), None, frozenset(), -1]
    tlabels = list(T) + ["nowhere", None, 10**9, -1]

    def some_chain():
        r = rng.random()
        if r < .75:
            return [rng.choice(tlabels if rng.random() < .1 else list(T) or tlabels)
                    for _ in range(rng.choice([1, 1, 2, 3, 6]))]
        return rng.choice([(), [], None, 0, 5, "ab", b"ab", {}, {0: 1}, Weird("iter"), [[]],
                           iter([0, 1]), range(3), [Weird("hash")], [None], float("nan")])

    def some_map():
        r = rng.random()
        if r < .75:
            m = {}
            for _ in range(rng.choice([1, 1, 2, 3])):
                m[rng.choice(slabels if rng.random() < .1 else list(S) or slabels)] = some_chain()
            return m
        return rng.choice([None, 0, 5, [], [0, 1], [[0], [1]], "xy", (), Weird("items"),
                           Weird("bool"), iter([(0, [0])]), {1: {2: 3}}, {0: 0}])

    for name in ["fixed_chains", "initial_chains", "restrict_chains"]:
        if rng.random() < .25:
            kw[name] = some_map()
    if rng.random() < .2:
        m = some_map()
        if isinstance(m, dict):
            m = {v: [some_chain() for _ in range(rng.choice([0, 1, 2]))] for v in m}
        kw["suspend_chains"] = m
    if rng.random() < .03:
        kw[rng.choice(["nonsense", "beta", "", "seed"])] = 1

    def graph(g):
        r = rng.random()
        if r < .7:
            return g
        es = list(g.edges())
        return rng.choice([es, [], {}, None, 0, "ab", ["ab", "bc"], [(0, 1, 2)], [(0,)], [0],
                           nx.Graph(), nx.DiGraph(g), nx.MultiGraph(g), [(0, 0)], late_error(es),
                           Weird("iter"), [(Weird("hash"), 0)], es + [(float("nan"), 1)],
                           es + [(None, ())], dict(g.adj), nx.path_graph(1), es + es,
                           [(0, 0), (1, 1)], set(es), 3.5, {0: [1]}])

    s, t = graph(S), graph(T)
    row = {"ns": 0, "nt": 0, "sedges": [], "tadj": [], "overlap": 0, "fixed": [], "restr": [],
           "blobs": [], "maxfill": 0, "init": [], "free": 0, "what": "garbage", "bug": 0,
           "flag": -1, "emb": [], "ret": "other", "args": repr((s, t, kw))[:600]}
    steps = []
    try:
        if rng.random() < .6:
            res = find_embedding(s, t, **kw)
            steps.append(type(res).__name__)
        else:
            m = miner(s, t, **kw)
            for _ in range(rng.randint(1, 4)):
                op = rng.choice(["find", "quick", "quickorder", "many", "set", "improve", "key"])
                try:
                    if op == "find":
                        m.find_embedding()
                    elif op == "quick":
                        m.quickpass(strategy=rng.choice([0, 1, 2, 3, 4, 5, 6, -1, 99, "x"]),
                                    chainlength_bound=rng.choice([0, 1, 3, -1, 10**6]),
                                    overlap_bound=rng.choice([0, 1, 3, -1, -5, 10**6]),
                                    local_search=rng.random() < .5,
                                    clear_first=rng.random() < .5,
                                    round_beta=rng.choice([1e64, 1, 1.5, 0, -1, float("nan"),
                                                           float("inf")]))
                    elif op == "quickorder":
                        m.quickpass(varorder=rng.choice([
                            [rng.choice(list(S)) for _ in range(rng.randint(0, 12))] if len(S) else [],
                            slabels, [], 5, "ab", list(S) * 2]),
                            local_search=rng.random() < .5, clear_first=rng.random() < .5)
                    elif op == "many":
                        m.find_embeddings(rng.choice([0, 1, 2, -1]))
                    elif op == "set":
                        m.set_initial_chains(some_map())
                    elif op == "improve":
                        m.improve_embeddings(rng.choice([[], [some_map()], [{}], 3]))
                    else:
                        m.quality_key(some_map(), rng.random() < .5)
                    steps.append(op)
                except Exception as e:   # noqa: BLE001
                    steps.append(op + ":" + type(e).__name__)
    except Exception as e:               # noqa: BLE001
        row["exc"] = type(e).__name__ + ": " + str(e)[:80]
    row["ret"], row["steps"] = "exc" if "exc" in row else "dict", steps
    yield row


PROFILES = dict(garbage=garbage, plain=plain, hard=hard, fixed=fixed, restrict=restrict, suspend=suspend,
                fill=fill, improve=improve, roomy=roomy, exact=exact)

if __name__ == "__main__":
    signal.signal(signal.SIGINT, signal.default_int_handler)
    hlib.main(PROFILES)
