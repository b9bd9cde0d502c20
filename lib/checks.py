"""The checks: for each property which models are checked, which behaviours of the real
code are recorded or replayed, and which specification judges them."""

import json
import os
import random
import sys

import vlib
from vlib import TIER, build_cpp, build_python, judge, model_check, note

QUICK = TIER == "quick"
CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def size(quick, thorough):
    return quick if QUICK else thorough


def confirm(pkg, script, profile, module, bad, keep, **env):
    """Only rejections that a second run of the same case repeats are reported."""
    out = []
    for row, clauses in bad:
        clauses = [c for c in clauses if keep(c) or c == vlib.UNINTELLIGIBLE]
        if not clauses:
            continue
        if len(out) < 4:
            again = [r for r in vlib.rerun_case(pkg, script, profile, row["case"], **env)
                     if "error" not in r and "crash" not in r]
            bad2 = judge(module, again, shards=1)[0] if again else []
            seen = {c for _, cs in bad2 for c in cs}
            if not set(clauses) & seen:
                note(f"{script} {profile} case {row['case']}: {clauses} not repeated")
                continue
        out.append((row, clauses))
    return out


def api(c, pkg, plan, keep, key=None):
    """Profiles of harness/api.py judged by spec/ApiJudge; clauses that `keep` accepts
    belong to this property."""
    for profile, n, limit in plan:
        rows = vlib.run_cases(pkg, "api.py", profile, n, timeout=limit)
        rows = vlib.crashes(c, pkg, "api.py", profile, rows)
        bad, m, st, tr = judge("ApiJudge", rows)
        bad = confirm(pkg, "api.py", profile, "ApiJudge", bad, keep)
        c.judged("api/" + profile, bad, m, st, tr, key=key, rows=rows)
        good = sum(1 for r in rows if r["emb"] and any(x[1] for x in r["emb"]))
        d = c.detail["traces"]["api/" + profile]
        d["with_chains"] = good
        d["exceptions"] = sum(r["ret"] == "exc" for r in rows)


EMB = {"shape", "key", "domain", "stray", "empty", "repeat", "broken", "overlap", "edge",
       "internal-error", "crash"}
SEMI = {"semi-domain", "semi-stray", "semi-empty", "semi-repeat", "semi-broken", "semi-edge",
        "flag", "flag-low", "shape", "key", "domain"}


def driver(c, n, keep, limit=250):
    """Recorded runs of the heuristic (harness/driver.cpp) against spec/DriverTrace."""
    exe = build_cpp("driver.cpp", tolerate=True)
    if exe is None:
        return
    rows = vlib.run_cases(None, exe, "stops", n, timeout=limit)
    rows = vlib.crashes(c, None, exe, "stops", rows)
    bad, m, st, tr = judge("DriverTrace", rows)
    bad = confirm(None, exe, "stops", "DriverTrace", bad, keep)
    c.judged("driver", bad, m, st, tr, rows=rows)
    d = c.detail["traces"]["driver"]
    d["events"] = sum(len(r["events"]) for r in rows)
    d["stopped_runs"] = sum(r["stopat"] >= 0 for r in rows)
    d["cancelled"] = sum(r["exc"] == 2 for r in rows)


@check("C01")
def c01(c):
    pkg = build_python("_minorminer")
    c.model(model_check("MinorOps"), "MinorOps")
    api(c, pkg, [("plain", size(1000, 20000), 200), ("exact", size(250, 4000), 100),
                 ("fixed", size(150, 4000), 100), ("restrict", size(150, 4000), 100),
                 ("suspend", size(150, 4000), 100), ("improve", size(100, 3000), 100)],
        lambda f: f in EMB)


@check("C02")
def c02(c):
    pkg = build_python("_minorminer")
    c.model(model_check("MinorOps"), "MinorOps")
    api(c, pkg, [("hard", size(1200, 20000), 250), ("plain", size(300, 6000), 150),
                 ("fill", size(200, 3000), 100), ("fixed", size(150, 3000), 100),
                 ("suspend", size(150, 3000), 100), ("exact", size(150, 3000), 100)],
        lambda f: f in SEMI)
    driver(c, size(100, 3000), lambda f: f in {"result", "semi-result", "leftover"})


@check("C03")
def c03(c):
    pkg = build_python("_minorminer")
    c.model(model_check("Constraints"), "Constraints")
    api(c, pkg, [("fixed", size(900, 15000), 250), ("exact", size(300, 5000), 120)],
        lambda f: f in {"fixed", "reserved", "lost", "domain", "key"})


@check("C04")
def c04(c):
    pkg = build_python("_minorminer")
    c.model(model_check("Constraints"), "Constraints")
    api(c, pkg, [("restrict", size(900, 15000), 250), ("exact", size(300, 5000), 120)],
        lambda f: f in {"restrict", "restrict-root", "lost", "domain", "key"})


@check("C05")
def c05(c):
    pkg = build_python("_minorminer")
    c.model(model_check("Constraints"), "Constraints")
    api(c, pkg, [("suspend", size(900, 15000), 250), ("exact", size(300, 5000), 120)],
        lambda f: f in {"suspend", "lost", "domain", "key", "stray", "semi-stray", "semi-domain"})


@check("C07")
def c07(c):
    c.model(model_check("FindEmbeddingMC"), "FindEmbeddingMC")
    driver(c, size(700, 12000), lambda f: True)


@check("C08")
def c08(c):
    pkg = build_python("_minorminer")
    c.model(model_check("FindEmbeddingMC"), "FindEmbeddingMC")
    api(c, pkg, [("improve", size(600, 12000), 200), ("roomy", size(500, 8000), 200)],
        lambda f: f in {"lost", "worse"})
    driver(c, size(300, 5000), lambda f: f in {"lost", "worse", "best"})


@check("C09")
def c09(c):
    pkg = build_python("_minorminer")
    c.model(model_check("MinorOps"), "MinorOps")
    api(c, pkg, [("fill", size(1000, 15000), 250)], lambda f: f in {"fill"})


@check("C10")
def c10(c):
    pkg = build_python("_minorminer")
    c.model(model_check("MinorOps"), "MinorOps")
    keep = lambda f: f in {"internal-error", "crash", "shape", "refused"}   # noqa: E731
    api(c, pkg, [("garbage", size(4000, 60000), 300), ("plain", size(400, 6000), 120),
                 ("fixed", size(200, 3000), 120), ("restrict", size(200, 3000), 120),
                 ("suspend", size(200, 3000), 120), ("hard", size(200, 3000), 120),
                 ("fill", size(100, 3000), 120)], keep)


def sampled(c, pkg, script, profile, module, n, limit, keep=lambda f: True, name=None,
            count=None, **env):
    """Recorded behaviours of a harness against the specification `module`."""
    rows = vlib.run_cases(pkg, script, profile, n, timeout=limit, **env)
    rows = vlib.crashes(c, pkg, script, profile, rows, **env)
    bad, m, st, tr = judge(module, rows)
    bad = confirm(pkg, script, profile, module, bad, keep, **env)
    name = name or os.path.splitext(os.path.basename(script))[0] + "/" + profile
    c.judged(name, bad, m, st, tr, rows=rows)
    for k, f in (count or {}).items():
        c.detail["traces"][name][k] = sum(f(r) for r in rows)
    return rows


def histories(c, pkg, script, profile, n, limit, keep=lambda f: True, name=None, **env):
    rows = vlib.run_cases(pkg, script, profile, n, timeout=limit, **env)
    rows = vlib.crashes(c, pkg, script, profile, rows, **env)
    bad, m, st, tr = judge("ReplayJudge", rows)
    bad = confirm(pkg, script, profile, "ReplayJudge", bad, keep, **env)
    c.judged(name or script[:-3] + "/" + profile, bad, m, st, tr, rows=rows)
    c.detail["traces"][name or script[:-3] + "/" + profile]["calls"] = \
        sum(len(r["h"]) for r in rows)


def processes(c, pkg, script, profile, n, limit, name):
    """The same calls in processes with different hash seeds are one history."""
    runs = []
    for hs in ("0", "1", "31337"):
        rows = vlib.run_cases(pkg, script, profile, n, timeout=limit, PYTHONHASHSEED=hs)
        runs.append(
            {r["case"]: r for r in vlib.crashes(c, pkg, script, profile, rows)})
    rows = []
    for k in runs[0]:
        rs = [r[k] for r in runs if k in r]
        rows.append({"case": k, "h": sum((r["h"] for r in rs), []),
                     "why": sum((r["why"] for r in rs), [])})
    bad, m, st, tr = judge("ReplayJudge", rows)
    c.judged(name, bad, m, st, tr, rows=rows)


@check("C06")
def c06(c):
    pkg = build_python("_minorminer")
    c.model(model_check("Workers"), "Workers")
    histories(c, pkg, "det.py", "same", size(400, 8000), 250)
    processes(c, pkg, "det.py", "hashes", size(300, 4000), 100, "det/processes")


@check("C11")
def c11(c):
    pkg = build_python("_minorminer")
    c.model(model_check("QuickpassMC", None if QUICK else "QuickpassMC_full", workers=8, timeout=3000),
            "QuickpassMC")
    sampled(c, pkg, "mine.py", "history", "MinerJudge", size(6000, 60000), 300,
            count={"calls": lambda r: len(r["steps"]),
                   "quickpasses": lambda r: sum(x["op"] == "quick" for x in r["steps"])})


@check("C12")
def c12(c):
    c.model(model_check("ChainMC", None if QUICK else "ChainMC_full", workers=8, timeout=3000), "ChainMC")
    exe = build_cpp("chains.cpp", tolerate=True)
    if exe is None:
        return
    sampled(c, None, exe, "ops", "ChainJudge", size(12000, 200000), 250, name="chains/ops",
            count={"operations": lambda r: len(r["steps"])})


@check("C15")
def c15(c):
    c.model(model_check("ChainMC", None if QUICK else "ChainMC_full", workers=8, timeout=3000), "ChainMC")
    exe = build_cpp("chains.cpp", tolerate=True)
    if exe is None:
        return
    sampled(c, None, exe, "search", "SearchJudge", size(5000, 60000), 250, name="chains/search",
            count={"shots": lambda r: len(r["shots"]),
                   "tables": lambda r: sum(len(s["seen"]) for s in r["shots"])})


@check("C13")
def c13(c):
    c.model(model_check("PairingQueue", None if QUICK else "PairingQueue_full", workers=8, timeout=3000),
            "PairingQueue")
    exe = build_cpp("basics.cpp", tolerate=True)
    if exe is None:
        return
    sampled(c, None, exe, "queue", "QueueJudge", size(12000, 200000), 250, name="basics/queue",
            count={"operations": lambda r: len(r["ops"])})


@check("C14")
def c14(c):
    c.model(model_check("Components", None if QUICK else "Components_full", workers=8, timeout=3000), "Components")
    exe = build_cpp("basics.cpp", tolerate=True)
    if exe is None:
        return
    sampled(c, None, exe, "graph", "ComponentsJudge", size(16000, 200000), 250, name="basics/graph",
            count={"components": lambda r: len(r["comps"])})


VALID = {"empty", "stray", "overlap", "broken", "labels", "edge"}


def busclique():
    return build_python("busclique", "_minorminer")


def busq(c, pkg, plan, keep):
    for profile, n, limit in plan:
        sampled(c, pkg, "busq.py", profile, "BuscliqueJudge", n, limit, keep,
                count={"answers": lambda r: len(r["asks"]),
                       "embeddings": lambda r: sum(a["emb"] != [] for a in r["asks"])})


@check("C16")
def c16(c):
    pkg = build_python("_minorminer")
    c.model(model_check("TalkMC", None if QUICK else "TalkMC_full", workers=8,
                        timeout=size(120, 3000)), "TalkMC")
    sampled(c, pkg, "talk.py", "log", "TalkJudge", size(2500, 40000), 250,
            count={"searches, each at three verbosities": lambda r: len(r["runs"]) + 1})
    sampled(c, pkg, "talk.py", "stop", "TalkJudge", size(8000, 200000), 250,
            count={"stopped by a signal": lambda r: any(e[0] == "signal" for e in r["events"]),
                   "stopped by time": lambda r: ["stop", 1, 0] in r["events"]})
    sampled(c, pkg, "talk.py", "kill", "TalkJudge", size(8000, 200000), 250,
            count={"killed": lambda r: ["kill", 0, 0] in r["events"],
                   "stopped by it": lambda r: ["stop", 2, 0] in r["events"]},
            SINK=vlib.build_module("sink.c"))


@check("C20")
def c20(c):
    busq(c, busclique(), [("clique", size(1600, 20000), 250), ("swap", size(200, 3000), 200),
                       ("mined", size(300, 4000), 200)],
         lambda f: f in VALID)


@check("C21")
def c21(c):
    busq(c, busclique(), [("biclique", size(900, 12000), 250), ("swap", size(150, 3000), 200)],
         lambda f: f in VALID | {"sizes", "balanced", "independent", "not-shortest"})


@check("C22")
def c22(c):
    busq(c, busclique(), [("clique", size(1600, 20000), 250)],
         lambda f: f in {"sizes", "not-shortest", "too-long", "by-length", "file", "direct"})


@check("C25")
def c25(c):
    pkg = busclique()
    sampled(c, pkg, "busq.py", "ident", "IdentityJudge", size(2000, 30000), 200,
            count={"graphs": lambda r: len(r["items"])})
    busq(c, pkg, [("swap", size(500, 6000), 200)], lambda f: f in VALID)


@check("C26")
def c26(c):
    pkg = busclique()
    histories(c, pkg, "busq.py", "det", size(900, 10000), 250)
    processes(c, pkg, "busq.py", "proc", size(250, 3000), 120, "busq/processes")


@check("C27")
def c27(c):
    pkg = busclique()
    c.model(model_check("NativeMC", None if QUICK else "NativeMC_full", workers=8, timeout=3000), "NativeMC")
    sampled(c, pkg, "busq.py", "native", "NativeJudge", size(700, 9000), 200,
            count={"sizes": lambda r: len(r["cliques"]) + len(r["bicliques"])})


@check("C23")
def c23(c):
    pkg = busclique()
    c.model(model_check("CliqueCacheMC", None if QUICK else "CliqueCacheMC_full", workers=8, timeout=3000),
            "CliqueCacheMC")
    sampled(c, pkg, "busq.py", "cache", "CliqueCacheJudge", size(5000, 60000), 250,
            count={"operations": lambda r: len(r["steps"])})
    sampled(c, pkg, "busq.py", "mines", "CliqueCacheJudge", size(250, 3000), 250,
            count={"operations": lambda r: len(r["steps"])})


@check("C24")
def c24(c):
    pkg = busclique()
    c.model(model_check("FileCacheMC", None if QUICK else "FileCacheMC_full", workers=8, timeout=3000), "FileCacheMC")
    sampled(c, pkg, "fscache.py", "preempt", "FileCacheJudge", size(110, 2000), 250,
            count={"operations": lambda r: len(r["ops"]), "in threads": lambda r: r["how"] == "threads"})
    sampled(c, pkg, "fscache.py", "crash", "FileCacheJudge", size(140, 2500), 250,
            count={"operations": lambda r: len(r["ops"]), "crashes": lambda r: r["crashes"]})
    sampled(c, pkg, "fscache.py", "lru", "FileCacheJudge", size(48, 500), 250,
            count={"operations": lambda r: len(r["steps"])})


# ---------------------------------------------------------------- utilities and layouts
def pylib():
    return build_python("busclique", "_minorminer", "_core")


def utils(c, pkg, plan, keep=lambda f: True, **count):
    for profile, n, limit in plan:
        sampled(c, pkg, "utils.py", profile, "UtilsJudge", n, limit, keep, count=count)


def layouts(c, pkg, plan, keep=lambda f: True, module="LayoutsJudge", **count):
    for profile, n, limit in plan:
        sampled(c, pkg, "layouts.py", profile, module, n, limit, keep, count=count)


@check("C30")
def c30(c):
    pkg = pylib()
    c.model(model_check("LayoutsMC", None if QUICK else "LayoutsMC_full", workers=8, timeout=3000), "LayoutsMC")
    layouts(c, pkg, [("history", size(3000, 40000), 200), ("graph", size(2500, 30000), 200),
                     ("pnorm", size(1500, 20000), 200), ("pack", size(2000, 20000), 200)])


@check("C31")
def c31(c):
    pkg = pylib()
    c.model(model_check("DiagnoseMC", None if QUICK else "DiagnoseMC_full", workers=8, timeout=3000), "DiagnoseMC")
    utils(c, pkg, [("diag", size(8000, 100000), 250)], errors=lambda r: len(r["errors"]))


@check("C32")
def c32(c):
    pkg = pylib()
    with vlib.scratch("vec-") as d:
        r = model_check("MinorOps", "MinorOps_emit", workers=8)
        c.model(r, "MinorOps")
        path = os.path.join(d, "vectors.ndjson")
        with open(path, "w") as fh:
            for line in r.out.splitlines():
                if line.startswith('"VEC '):
                    fh.write(json.loads(line)[4:] + "\n")
        sampled(c, pkg, "utils.py", "vectors", "UtilsJudge", 64, 200, VECTORS=path, VECTORS_STEP="64")
    utils(c, pkg, [("filter", size(6000, 80000), 250)])


@check("C33")
def c33(c):
    utils(c, pylib(), [("bound", size(5000, 60000), 250)], bounds=lambda r: r["bound"] >= 0)


@check("C34")
def c34(c):
    utils(c, pylib(), [("legacy", size(1200, 15000), 250), ("processor", size(4000, 40000), 250)])


@check("C35")
def c35(c):
    layouts(c, pylib(), [("boxes", size(4000, 50000), 250)], module="UtilsJudge")


@check("C36")
def c36(c):
    utils(c, pylib(), [("multi", size(4000, 50000), 250), ("sublattice", size(4000, 50000), 250),
                       ("arrays", size(1500, 15000), 250)])


@check("C37")
def c37(c):
    layouts(c, pylib(), [("closest", size(3000, 40000), 250), ("cross", size(3000, 40000), 250),
                         ("place", size(4000, 50000), 250)])
