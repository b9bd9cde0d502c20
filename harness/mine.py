"""Histories of one miner object (spec/Miner): quickpasses, searches, new starting
chains, improvements and quality keys, in any order."""

import hlib
from api import BUGS, Problem, pick_fixed, pick_restrict
from hlib import as_input, enc_adj, enc_edges, enc_emb, enc_map
from minorminer import VARORDER, miner

ORDERS = [VARORDER.VARORDER_SHUFFLE, VARORDER.VARORDER_DFS, VARORDER.VARORDER_BFS,
          VARORDER.VARORDER_PFS, VARORDER.VARORDER_RPFS, VARORDER.VARORDER_KEEP]


def reply(P, res, bare=False):
    r = {"ret": "other", "flag": -1, "emb": [], "bug": False}
    if isinstance(res, Exception):
        r["ret"], r["exc"] = "exc", type(res).__name__ + ": " + str(res)[:120]
        r["bug"] = isinstance(res, BUGS) or "may be invalid" in str(res)
        return r
    if isinstance(res, dict):
        r["ret"] = "bare" if bare else "dict"
    elif isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], dict):
        r["ret"], r["flag"], res = "pair", int(res[1]), res[0]
    else:
        return r
    r["emb"] = enc_emb(res, P.sid, P.tid)
    return r


def attempt(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception as e:          # noqa: BLE001
        return e


def some_chains(P, emb, share=.7):
    """Chains to start from: parts of an embedding, moved about."""
    rng, out = P.rng, {}
    for v in P.S:
        if rng.random() < share:
            if emb and emb.get(v) and rng.random() < .6:
                out[v] = list(emb[v])
            else:
                out[v] = P.ball(rng.randint(1, 3))
    return out


def history(rng, k):
    P = Problem(rng, hi=7, small=rng.random() < .5)
    if not P.main or not P.unique or not P.sid:
        return
    kw = P.knobs()
    if rng.random() < .35:
        kw["return_overlap"] = True
    seed_emb = attempt(lambda: miner(P.S, P.T, tries=2, timeout=10, random_seed=5).find_embedding())
    if isinstance(seed_emb, Exception):
        seed_emb = None
    kind = rng.choice(["free", "free", "free", "fixed", "restrict", "suspend"])
    if kind == "fixed":
        fx = pick_fixed(P, seed_emb)
        if fx:
            kw["fixed_chains"] = fx
    elif kind == "restrict":
        kw["restrict_chains"] = pick_restrict(P, seed_emb)
    elif kind == "suspend":
        kw["suspend_chains"] = {v: [P.ball(rng.randint(1, 4)) for _ in range(rng.randint(1, 2))]
                                for v in P.S if rng.random() < .4}
    if rng.random() < .3:
        kw["initial_chains"] = some_chains(P, seed_emb)
    if rng.random() < .15 and "initial_chains" not in kw:
        kw["max_fill"] = rng.choice([1, 2, 3])
    row = {"ns": len(P.sid), "nt": len(P.tid), "sedges": enc_edges(P.S, P.sid),
           "tadj": enc_adj(P.T, P.tid), "overlap": int(bool(kw.get("return_overlap"))),
           "fixed": enc_map({v: c for v, c in kw.get("fixed_chains", {}).items() if c}, P.sid, P.tid),
           "restr": enc_map({v: c for v, c in kw.get("restrict_chains", {}).items() if c}, P.sid, P.tid),
           "blobs": [[P.sid[v], [P.tid[q] for q in b]]
                     for v, bs in kw.get("suspend_chains", {}).items() for b in bs],
           "maxfill": kw.get("max_fill", 0), "initial": enc_emb(
               {v: c for v, c in kw.get("initial_chains", {}).items() if c}, P.sid, P.tid),
           "free": int(not any(x.endswith("_chains") for x in kw) and "max_fill" not in kw),
           "params": {x: y for x, y in kw.items() if not x.endswith("_chains")}, "steps": []}
    fixed = {v for v, c in kw.get("fixed_chains", {}).items() if c}
    loose = [v for v in P.S if v not in fixed]
    m = attempt(miner, as_input(rng, P.S)[0], as_input(rng, P.T)[0], **kw)
    if isinstance(m, Exception):
        return
    solved, known = False, [seed_emb] if seed_emb else []
    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["quick", "quick", "quick", "quick", "find", "many", "improve", "init", "key"])
        x = {"op": op, "keep": False, "strategy": False, "bad": False}
        if op == "quick":
            x["len"] = rng.choice([0, 0, 0, 1, 2, 3, 5])
            x["over"] = rng.choice([0, 0, 0, 1, 2])
            if row["maxfill"]:
                x["over"] = min(x["over"], row["maxfill"] - 1)
            x["clear"] = rng.random() < .4
            args = dict(chainlength_bound=x["len"], overlap_bound=x["over"],
                        local_search=rng.random() < .5, clear_first=x["clear"])
            if rng.random() < .3:
                args["round_beta"] = rng.choice([1.5, 2, 10])
            if rng.random() < .6:
                vo = [v for v in loose if rng.random() < .8] or loose[:1]
                rng.shuffle(vo)
                if rng.random() < .3:
                    vo += rng.sample(vo, rng.randint(1, len(vo)))
                if rng.random() < .2:
                    vo += sorted(fixed, key=repr)[:1]
                if rng.random() < .06:
                    x["bad"] = True
                    vo = vo + [("no", "label")]
                args["varorder"] = vo
                x["order"] = [P.sid[v] for v in vo if v not in fixed and v in P.S]
                if not x["order"]:
                    continue
            else:
                s = rng.choice(ORDERS)
                args["strategy"] = s
                x["keep"], x["strategy"] = s == ORDERS[-1], s != ORDERS[-1]
                # which one comes last is not known: a variable that is never given up on
                x["order"] = [P.sid[v] for v in loose] + [0]
            r = reply(P, attempt(m.quickpass, **args))
            x["ret"], x["emb"] = r["ret"], r["emb"]
            if r["ret"] == "exc":
                x["exc"] = r["exc"]
            x["args"] = {a: int(b) for a, b in args.items() if a not in ("varorder",)}
        elif op == "find":
            res = attempt(m.find_embedding)
            x["reps"] = [reply(P, res)]
            if isinstance(res, tuple):
                known.append(res[0])
            elif isinstance(res, dict) and res:
                known.append(res)
                solved = True
        elif op == "many":
            x["n"] = rng.choice([-1, 0, 1, 2, 3])
            x["force"] = bool(rng.random() < .5 and (solved or row["overlap"]))
            # a forced search ends when enough of its searches succeed
            if x["force"] and not row["overlap"] and kw.get("tries", 1) < 2:
                x["force"] = False
            res = attempt(m.find_embeddings, x["n"], force=x["force"])
            if isinstance(res, Exception):
                x["op"], x["reps"] = "find", [reply(P, res)]
            else:
                x["reps"] = [reply(P, e, True) for e in res]
                known += [e for e in res if isinstance(e, dict) and e]
        elif op == "improve":
            starts = []
            for _ in range(rng.randint(0, 3)):
                starts.append(rng.choice(known) if known and rng.random() < .6
                              else some_chains(P, rng.choice(known) if known else None))
            res = attempt(m.improve_embeddings, [dict(s) for s in starts])
            x["starts"] = [enc_emb({v: c for v, c in s.items() if c}, P.sid, P.tid) for s in starts]
            if isinstance(res, Exception):
                break                   # how far it came is not known
            x["reps"] = [reply(P, e, True) for e in res]
            known += [e for e in res if isinstance(e, dict) and e]
        elif op == "init":
            ch = rng.choice(known) if known and rng.random() < .5 else some_chains(
                P, rng.choice(known) if known else None, rng.choice([.3, .7, 1]))
            res = attempt(m.set_initial_chains, ch)
            if isinstance(res, Exception):
                break
            x["chains"] = enc_emb({v: c for v, c in ch.items() if c}, P.sid, P.tid)
        else:
            e = rng.choice(known) if known and rng.random() < .6 else some_chains(
                P, None, rng.choice([0, .5, 1]))
            x["embedded"] = bool(rng.random() < .3)
            q = m.quality_key(e, x["embedded"]) if x["embedded"] else m.quality_key(e)
            x["emb"] = enc_emb(e, P.sid, P.tid)
            x["key"] = {"state": q[0], "over": list(q[1]) if len(q) > 1 else [],
                        "len": list(q[2]) if len(q) > 2 else []}
        row["steps"].append(x)
    yield row


PROFILES = dict(history=history)

if __name__ == "__main__":
    hlib.main(PROFILES)
