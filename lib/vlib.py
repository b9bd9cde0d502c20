"""Shared machinery of the checks: building /repo's working tree out of tree,
running harnesses, running TLC, judging, evidence and verdicts.

Nothing here decides a property: that is the job of the TLA+ modules in
/verif/spec, which this file only feeds (NDJSON traces) and reads (REJECT lines,
state counts)."""

import concurrent.futures
import contextlib
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
VENV_PY = "/opt/minorminer-venv/bin/python"
SITE = "/opt/minorminer-venv/lib/python3.12/site-packages"
SYS_PY = "/usr/bin/python3"
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = min(8, os.cpu_count() or 1)

TIER = os.environ.get("VERIF_TIER", "quick")
STARTED = time.time()
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class Broken(Exception):
    """The machinery itself could not do its work (never a verdict)."""


# ----------------------------------------------------------------- building

def _digest(patterns, extra=""):
    h = hashlib.sha256(extra.encode())
    files = sorted({f for p in patterns
                    for f in glob.glob(os.path.join(REPO, p), recursive=True)
                    if os.path.isfile(f)})
    for f in files:
        with open(f, "rb") as fh:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


@contextlib.contextmanager
def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        yield


def _run(cmd, what, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        raise Broken(f"{what} failed with exit code {p.returncode}")
    return p.stdout.decode(errors="replace")


_HEAD = ["include/**/*.hpp", "include/**/*.h", "minorminer/src/**/*",
         "minorminer/*.pxi", "minorminer/*.pxd"]
#: extension: inputs, pyx, extra sources, language, include dirs
EXT = {
    "_minorminer": (_HEAD + ["minorminer/_minorminer.pyx"],
                    "minorminer/_minorminer.pyx", [], "c++",
                    [".", "include", "include/find_embedding"]),
    "busclique": (_HEAD + ["minorminer/busclique.pyx"],
                  "minorminer/busclique.pyx", [], "c++",
                  [".", "include", "include/busclique"]),
    "_core": (["minorminer/_extern/**/*.pyx", "minorminer/_extern/**/*.pxd",
               "minorminer/_extern/**/*.h", "minorminer/_extern/rpack/src/**/*.c"],
              "minorminer/_extern/rpack/_core.pyx",
              ["minorminer/_extern/rpack/src/rpackcore.c"], "c",
              [".", "minorminer/_extern/rpack/include"]),
}
_WHERE = {"_minorminer": "minorminer/_minorminer.so",
          "busclique": "minorminer/busclique.so",
          "_core": "minorminer/_extern/rpack/_core.so"}
_PYINC = "/usr/include/python3.12"


def _prune(pattern, keep):
    old = sorted(glob.glob(os.path.join(BUILD, pattern)), key=os.path.getmtime)
    for f in old[:-keep] if keep else old:
        if os.path.isdir(f):
            shutil.rmtree(f, ignore_errors=True)
        else:
            with contextlib.suppress(OSError):
                os.remove(f)


def _build_ext(name):
    inputs, pyx, more, lang, incs = EXT[name]
    key = _digest(inputs, "v8" + name)
    so = os.path.join(BUILD, f"{name}-{key}.so")
    with _lock("ext" + name):
        if os.path.exists(so):
            return so
        _prune(f"{name}-*.so", 3)
        work = tempfile.mkdtemp(prefix="mk-", dir=BUILD)
        try:
            for d in ("minorminer", "include"):
                shutil.copytree(os.path.join(REPO, d), os.path.join(work, d),
                                ignore=shutil.ignore_patterns(
                                    "*.so", "__pycache__", "subgraph.*",
                                    "_minorminer.cpp", "busclique.cpp", "_core.c"))
            gen = os.path.join(work, os.path.dirname(pyx),
                               "gen_." + ("cpp" if lang == "c++" else "c"))
            _run([VENV_PY, "-m", "cython", "-3"]
                 + (["--cplus"] if lang == "c++" else [])
                 + [pyx, "-o", gen], "cython " + pyx, cwd=work)
            # the rectangle packer's own assertions are off in the real build (and one of
            # them is wrong: a search may end at the area that it began with)
            cc = ["g++", "-std=c++17", "-fno-rtti"] if lang == "c++" else ["gcc", "-DNDEBUG"]
            cmd = (cc + ["-shared", "-fPIC", "-O1", "-w", "-include", os.path.join(HARNESS, "checked.h")]
                   + [f"-I{os.path.join(work, i)}" for i in incs] + ["-I" + _PYINC]
                   + [gen] + [os.path.join(work, m) for m in more]
                   + ["-o", os.path.join(work, "out.so")])
            _run(cmd, "compiling " + pyx, cwd=work)
            os.replace(os.path.join(work, "out.so"), so)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return so


def build_python(*names):
    """An importable copy of the `minorminer` package of the working tree, with the
    named extensions compiled from it.  Returns the directory to put on PYTHONPATH."""
    names = names or tuple(EXT)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        sos = dict(zip(names, ex.map(_build_ext, names)))
    key = _digest(["minorminer/**/*.py", "minorminer/**/*.pyx", "include/**/*.hpp"],
                  "pkg" + repr(sorted(sos.items())))
    pkg = os.path.join(BUILD, "pkg-" + key)
    with _lock("pkg"):
        if not os.path.exists(pkg):
            _prune("pkg-*", 6)
            work = tempfile.mkdtemp(prefix="mk-", dir=BUILD)
            shutil.copytree(os.path.join(REPO, "minorminer"),
                            os.path.join(work, "minorminer"),
                            ignore=shutil.ignore_patterns(
                                "*.so", "__pycache__", "*.cpp", "*.pyx", "*.c"))
            for n, so in sos.items():
                shutil.copyfile(so, os.path.join(work, _WHERE[n]))
            os.replace(work, pkg)
    return pkg


def build_cpp(src, extra=(), std="c++17", tolerate=False):
    """Compile a C++ harness of /verif/harness against /repo's headers.  With
    `tolerate`, a harness that no longer fits the headers yields None."""
    path = os.path.join(HARNESS, src)
    with open(path, "rb") as fh:
        mine = hashlib.sha256(fh.read()).hexdigest()
    for h in sorted(glob.glob(os.path.join(HARNESS, "*.hpp"))):
        with open(h, "rb") as fh:
            mine += hashlib.sha256(fh.read()).hexdigest()
    base = os.path.splitext(src)[0]
    key = _digest(["include/**/*.hpp", "include/**/*.h"], mine + repr(extra) + std + "v5")
    exe = os.path.join(BUILD, f"{base}-{key}.exe")
    with _lock("cpp" + base):
        if os.path.exists(exe):
            return exe
        _prune(f"{base}-*.exe", 2)
        cmd = ["g++", "-std=" + std, "-O1", "-w", "-include", os.path.join(HARNESS, "checked.h"),
               "-I" + os.path.join(REPO, "include"),
               "-I" + os.path.join(REPO, "include/find_embedding"),
               "-I" + os.path.join(REPO, "include/busclique"),
               "-I" + HARNESS, path, "-o", exe + ".tmp", "-pthread"] + list(extra)
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            if tolerate:
                note("harness %s does not compile against this tree; skipped" % src)
                return None
            sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
            raise Broken(f"harness {src} does not compile")
        os.replace(exe + ".tmp", exe)
    return exe


def build_module(src):
    """A python extension of the harness's own; -> the directory to import it from."""
    path = os.path.join(HARNESS, src)
    with open(path, "rb") as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:20]
    base = os.path.splitext(src)[0]
    d = os.path.join(BUILD, f"{base}-{key}.dir")
    with _lock("mod" + base):
        so = os.path.join(d, base + ".so")
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            _run(["gcc", "-O1", "-shared", "-fPIC", "-I" + _PYINC, path, "-o", so + ".tmp"],
                 "gcc " + src)
            os.replace(so + ".tmp", so)
    return d


# ------------------------------------------------------------ running things

@contextlib.contextmanager
def scratch(prefix="vc-"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def py_env(pkg, data, **kw):
    env = {k: v for k, v in os.environ.items()
           if k not in ("PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV", "XDG_DATA_HOME")}
    env.update(PYTHONPATH=f"{pkg}:{SITE}:{HARNESS}", XDG_DATA_HOME=data,
               XDG_CACHE_HOME=data, XDG_CONFIG_HOME=data,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    env.update({k: str(v) for k, v in kw.items()})
    return env


def run_python(pkg, script, args, out, timeout=600, **env):
    """Run one harness process; it writes NDJSON to `out`.  Returns (rc, stderr tail)."""
    with scratch("xdg-") as data:
        with open(out + ".err", "wb") as err:
            try:
                p = subprocess.run([SYS_PY, os.path.join(HARNESS, script), out]
                                   + [str(a) for a in args],
                                   env=py_env(pkg, data, **env), cwd=data,
                                   stdout=err, stderr=err, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -999
    with open(out + ".err", "rb") as fh:
        tail = fh.read()[-3000:].decode(errors="replace")
    return rc, tail


_notes = []


def note(msg):
    _notes.append(msg)
    sys.stderr.write("note: " + msg + "\n")


def read_ndjson(path):
    rows = []
    if not os.path.exists(path):
        return rows
    with open(path) as fh:
        for line in fh:
            line = line.strip()
            if line:
                try:
                    rows.append(json.loads(line))
                except ValueError:
                    break          # a process that died while writing
    return rows


def write_ndjson(path, rows):
    with open(path, "w") as fh:
        for r in rows:
            fh.write(json.dumps(r, separators=(",", ":")) + "\n")


# ------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, rc, out, secs):
        self.rc, self.out, self.secs = rc, out, secs
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = ("Model checking completed. No error has been found." in out
                   or "The number of states generated:" in out) and rc == 0
        self.rejects = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('<<"REJECT"'):
                self.rejects.append(line)
        self.violated = "is violated" in out or "was violated" in out

    def prints(self, tag):
        return [l.strip() for l in self.out.splitlines()
                if l.strip().startswith('<<"%s"' % tag)]


def tlc(module, cfg=None, workers=1, timeout=600, heap="3g", props=(), extra=(), **env):
    """Run TLC on SPEC/module.tla with SPEC/cfg (default module.cfg)."""
    cfg = cfg or module + ".cfg"
    t0 = time.time()
    with scratch("tlc-") as meta:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + meta,
               "-DTLA-Library=" + SPEC] + list(props) + [
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-noGenerateSpecTE", "-config",
               os.path.join(SPEC, cfg)] + list(extra) + [
               os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, timeout=timeout,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            rc, out = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            rc, out = -999, (x.stdout or b"").decode(errors="replace")
    return TlcResult(rc, out, time.time() - t0)


def model_check(module, cfg=None, workers=4, timeout=600, heap="6g", **env):
    """Exhaustively check a design spec.  A failure here is a failure of the
    specification, never of the code: it is reported as broken machinery."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, **env)
    if not r.ok:
        sys.stderr.write(r.out[-5000:])
        raise Broken(f"TLC on {module}/{cfg}: exit {r.rc}")
    return r


def split_rows(rows, n):
    n = max(1, min(n, len(rows)))
    size = (len(rows) + n - 1) // n
    return [rows[i:i + size] for i in range(0, len(rows), size)]


UNINTELLIGIBLE = "unintelligible"


def judge(module, rows, shards=NCPU, timeout=700, heap="3g", **env):
    """Trace validation: feed recorded rows (NDJSON) to a trace specification.

    Rows are judged one by one by the spec; a rejected row is printed as
    <<"REJECT", index, clause>>.  A row that is not of the specification's types, so
    that TLC cannot evaluate it (a point of another dimension, a number out of any
    range), is rejected as "unintelligible", and the judge goes on behind it.
    Returns (list of (row, clauses)), number judged, states, transitions."""
    if not rows:
        return [], 0, 0, 0
    # deal the rows over the shards so that the shards are of similar size
    buckets = [[] for _ in range(max(1, min(shards, len(rows))))]
    weight = [0] * len(buckets)
    for r in rows:
        k = weight.index(min(weight))
        buckets[k].append(r)
        weight[k] += len(r)

    def one(mine):
        bad, states, trans, odd = [], 0, 0, 0
        while mine:
            with scratch("tr-") as d:
                path = os.path.join(d, "t.ndjson")
                write_ndjson(path, mine)
                r = tlc(module, workers=1, timeout=timeout, heap=heap, TRACE=path, **env)
            states += r.distinct
            trans += r.generated
            hits = {}
            for line in r.rejects:
                m = re.match(r'<<"REJECT", (\d+), "([^"]*)">>$', line)
                hits.setdefault(int(m.group(1)) - 1, set()).add(m.group(2))
            done = [int(re.findall(r"\d+", l)[0]) for l in r.prints("JUDGED")]
            left = []
            if not r.ok or done != [len(mine)]:
                # a row that TLC cannot evaluate is the successor of the last state
                at = re.findall(r"^(?:/\\ )?i = (\d+)$", r.out, re.M)
                if r.rc in (75, 76, 255) and at and int(at[-1]) < len(mine) \
                        and "OutOfMemory" not in r.out:
                    k = int(at[-1])
                    hits = {i: h for i, h in hits.items() if i < k}
                    hits[k] = {UNINTELLIGIBLE}
                    odd += 1
                    left = mine[k + 1:] if odd < 4 else []
                    note("TLC on %s: %s" % (module, " ".join(
                        l for l in r.out.splitlines() if "Error" in l)[:300]))
                else:
                    sys.stderr.write(r.out[-5000:])
                    raise Broken(f"TLC did not judge the whole trace with {module} "
                                 f"(exit {r.rc}, judged {done} of {len(mine)})")
            bad += [(mine[i], sorted(hits[i])) for i in sorted(hits)]
            mine = left
        return bad, states, trans

    with concurrent.futures.ThreadPoolExecutor(max_workers=NCPU) as ex:
        res = list(ex.map(one, buckets))
    return (sum((r[0] for r in res), []), len(rows), sum(r[1] for r in res),
            sum(r[2] for r in res))


# ------------------------------------------------------------ running cases

def run_cases(pkg, script, profile, n, timeout=600, quiet=90, start=0, shards=NCPU, **env):
    """Run cases start..n-1 of a harness profile over parallel processes (hlib.main).
    A case that kills its process or never ends yields a {"crash": ...} row, and the
    run goes on behind it.  Returns the rows."""
    deadline = time.time() + timeout
    if TIER == "quick":             # a check has 900 s, all in all
        deadline = min(deadline, max(STARTED + 700, time.time() + 5))

    def work(shard):
        rows, at, restarts = [], start, 0
        with scratch("rc-") as d:
            while True:
                out = os.path.join(d, "o%d.ndjson" % restarts)
                data = os.path.join(d, "xdg%d" % restarts)
                os.makedirs(data)
                with open(out + ".err", "wb") as err:
                    prog = ([script] if script.endswith(".exe")
                            else [SYS_PY, os.path.join(HARNESS, script)])
                    p = subprocess.Popen(
                        prog + [out, profile, str(shard),
                         str(shards), str(at), str(n)], env=py_env(pkg or "", data, **env),
                        cwd=data, stdout=err, stderr=err, start_new_session=True)
                    size, since, why = -1, time.time(), None
                    while p.poll() is None:
                        with contextlib.suppress(subprocess.TimeoutExpired):
                            p.wait(0.2)
                        now = os.path.getsize(out) if os.path.exists(out) else 0
                        if now != size:
                            size, since = now, time.time()
                        elif time.time() - since > quiet:
                            why = "hang"
                        if time.time() > deadline and not why:
                            why = "late"
                        if why:
                            with contextlib.suppress(OSError):
                                os.killpg(p.pid, 9)
                            p.wait()
                            break
                got = read_ndjson(out)
                with open(out + ".err", "rb") as fh:
                    tail = fh.read()[-2000:].decode(errors="replace")
                rows += [r for r in got if "begin" not in r and "end" not in r]
                if got and "end" in got[-1]:
                    return rows
                begun = [r["begin"] for r in got if "begin" in r]
                if why == "late":
                    note(f"{script}/{profile}: stopped after {timeout} s")
                    return rows
                if not begun or (p.returncode == 1 and "Traceback" in tail):
                    sys.stderr.write(tail)
                    raise Broken(f"harness {script} {profile} failed (exit {p.returncode})")
                rows = [r for r in rows if r.get("case") != begun[-1]]
                rows.append({"case": begun[-1], "crash": why or "exit %d" % p.returncode,
                             "stderr": tail[-600:]})
                at, restarts = begun[-1] + 1, restarts + 1
                if restarts > 3:
                    note(f"{script}/{profile}: shard {shard} stopped after {restarts} crashes")
                    return rows

    with concurrent.futures.ThreadPoolExecutor(max_workers=shards) as ex:
        return [r for rs in ex.map(work, range(shards)) for r in rs]


def rerun_case(pkg, script, profile, k, quiet=120, **env):
    return run_cases(pkg, script, profile, k + 1, start=k, shards=1, timeout=400,
                     quiet=quiet, **env)


def crashes(check, pkg, script, profile, rows, **env):
    """Take the crash rows out; report those that repeat."""
    for r in [r for r in rows if "error" in r][:3]:
        if any("error" in a for a in rerun_case(pkg, script, profile, r["case"], **env)):
            check.violation("error", f"{script} {profile} case {r['case']}: unexpected "
                            + r["error"][-300:], r)
        else:
            note(f"{script} {profile} case {r['case']}: {r['error'][-200:]}, not repeated")
    rows = [r for r in rows if "error" not in r]
    bad = [r for r in rows if "crash" in r]
    for r in bad[:3]:
        again = rerun_case(pkg, script, profile, r["case"], **env)
        if any("crash" in a for a in again):
            what = "hang" if r["crash"] == "hang" else "crash"
            check.violation(what, f"{script} {profile} case {r['case']}: {r['crash']}",
                            {"profile": profile, **r})
        else:
            note(f"{script} {profile} case {r['case']}: {r['crash']}, not repeated")
    return [r for r in rows if "crash" not in r]


# ------------------------------------------------------------ verdicts

def known_findings(pid):
    """Lines `known: property=<id> key=<key> <text>` of /verif/KNOWN_FINDINGS."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                m = re.match(r"known: property=(\S+) key=(\S+)\s+(.*)", line)
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    return out


class Enough(Exception):
    """There is a violation to report, and the check has taken its time."""


class Check:
    """Collects what one check explored and how it was judged."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.detail, self.assumptions = [], {}, []
        self.viol = []           # (key, text, payload)

    def model(self, r, name=None):
        self.states += r.distinct
        self.transitions += r.generated
        d = self.detail.setdefault("models", {})
        d[name or "model%d" % len(d)] = {"distinct_states": r.distinct,
                                         "transitions": r.generated,
                                         "seconds": round(r.secs, 1)}

    def judged(self, name, bad, n, states, trans, key=None, traces=None, rows=None):
        self.states += states
        self.transitions += trans
        self.traces += n if traces is None else traces
        d = self.detail.setdefault("traces", {})
        e = d.setdefault(name, {"rows": 0, "rejected": 0})
        e["rows"] += n
        e["rejected"] += len(bad)
        if traces is not None:
            e["behaviours"] = e.get("behaviours", 0) + traces
        if rows:
            for r in rows[:: max(1, len(rows) // 2)][:2]:
                s = json.dumps(r)
                self.samples.append({name: r if len(s) < 1500 else s[:1500] + "..."})
        for row, clauses in bad:
            k = key(row, clauses) if key else "+".join(sorted(clauses))
            self.viol.append((k, f"{name}: {clauses}", {"row": row, "clauses": clauses}))
        self.enough()

    def enough(self):
        if time.time() - self.t0 > 200 and self.fresh():
            raise Enough()

    def violation(self, key, text, payload=None):
        self.viol.append((key, text, payload))
        self.enough()

    def fresh(self):
        known = known_findings(self.pid)
        return [v for v in self.viol if v[0] not in known]

    def finish(self):
        known = known_findings(self.pid)
        fresh = self.fresh()
        hit = sorted({v[0] for v in self.viol if v[0] in known})
        for k in hit:
            print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12] or ["none"], **self.detail}
        if self.level == "exploration":
            cov.setdefault("evaluations", self.traces)
        if _notes:
            cov["notes"] = list(_notes)
        if hit:
            cov["known_findings_seen"] = hit
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if fresh:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as fh:
                json.dump([{"key": k, "what": t, "payload": p} for k, t, p in fresh[:20]],
                          fh, indent=1, default=str)
            for k, t, _ in fresh[:8]:
                print(f"  {k}: {t}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions}"
              f" traces={self.traces} wall={time.time() - self.t0:.1f}s")
        return 0
