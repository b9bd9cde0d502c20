"""Histories of seeded calls (spec/ReplayJudge)."""
import json

import hlib
from api import Problem, pick_fixed
from hlib import enc_emb
from minorminer import find_embedding, miner


def fold(x):
    return json.dumps(x, default=repr, separators=(",", ":"))


def ask(P, fn, overlap, inputs, kw):
    try:
        r = fn(*inputs, return_overlap=overlap, **kw)
    except Exception as e:              # noqa: BLE001
        return "exc " + type(e).__name__ + str(e)[:60]
    flag = ""
    if overlap:
        r, flag = r
    # the order of the nodes within a chain is not looked at
    return fold([flag, [[v, sorted(c)] for v, c in sorted(enc_emb(r, P.sid, P.tid))]])


def via_miner(s, t, **kw):
    return miner(s, t, **kw).find_embedding()


def same(rng, k):
    P = Problem(rng, hi=9, small=rng.random() < .5)
    if not len(P.T) or not len(P.S):
        return
    h, why = [], []
    inputs = (P.S, P.T) if rng.random() < .5 else (list(P.S.edges()), P.T)
    if isinstance(inputs[0], list) and not inputs[0]:
        inputs = (P.S, P.T)
    confs = []
    for _ in range(rng.randint(1, 3)):
        kn = P.knobs()
        kn["timeout"] = 1000
        kn.pop("verbose", None)
        kn.pop("threads", None)
        if rng.random() < .3:
            kn["random_seed"] = rng.choice([0, 1, 2**32 - 1, 2**32, 2**63, 2**64 - 1])
        if rng.random() < .25 and P.main and P.unique:
            fx = pick_fixed(P)
            if fx:
                kn["fixed_chains"] = fx
        if rng.random() < .25 and P.main and P.unique:
            kn["initial_chains"] = {v: P.ball(rng.randint(1, 3)) for v in P.S
                                    if rng.random() < .4}
        confs.append((kn, rng.random() < .5))
    steps = []
    for c in range(len(confs)):
        steps += [(c, "repeat", {}), (c, "repeat", {}), (c, "verbose", {"verbose": rng.choice([1, 2, 3])}),
                  (c, "interactive", {"interactive": True})]
        if rng.random() < .35:
            steps += [(c, "threads", {"threads": n}) for n in rng.sample([2, 3, 4, 5, 8], 3)]
            steps.append((c, "threads", {"threads": 2}))
        else:
            steps.append((c, "serial", {"threads": 1}))
        if rng.random() < .5:
            steps.append((c, "miner", None))
    rng.shuffle(steps)
    for c, w, more in steps:
        kn, overlap = confs[c]
        fn = find_embedding
        if more is None:
            fn, more = via_miner, {}
        key = [c, "many" if more.get("threads", 1) > 1 else "one"]
        h.append([fold(key), ask(P, fn, overlap, inputs, {**kn, **more})])
        why.append(w)
    yield {"h": h, "why": why}


def hashes(rng, k):
    """One call; the runs of different processes are put together by the check."""
    P = Problem(rng, hi=9, small=True)
    if not len(P.T) or not len(P.S):
        return
    kn = P.knobs()
    kn["timeout"] = 1000
    yield {"h": [["call", ask(P, find_embedding, False, (P.S, P.T), kn)]], "why": ["process"]}


PROFILES = dict(same=same, hashes=hashes)

if __name__ == "__main__":
    hlib.main(PROFILES)
