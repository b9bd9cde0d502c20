"""The cache directory of busclique under processes and threads that interleave and die
(spec/FileCacheJudge).  A process is held, or dies, before the j-th thing it does to the
file system or its locks (as audit events tell), while others go on."""

import json
import os
import shutil
import sys
import threading
import time

import hlib
from busq import fresh_cache, make

import minorminer.busclique as bc

LATE = 10**9
WAIT = .04          # how long others may take before the one that was held goes on


def graphs():
    """graphs some of which share a cache file, and some not"""
    out = []
    full = make("pegasus", (2,), "int")
    odd = [(x, y) for x, y in full.edges() if x // 12 == y // 12 and x % 2 == 0 and y == x + 1] or list(full.edges())
    for j in range(3):
        out.append((make("pegasus", (2,), "int", list(full.nodes()),
                         [e for e in full.edges() if e not in odd[:j]]), 0))
    out.append((out[0][0], 5))
    c = make("chimera", (1, 1, 2), "int")
    for drop in range(3):
        nodes = [v for v in c.nodes() if v != drop]
        out.append((make("chimera", (1, 1, 2), "int", nodes, [e for e in c.edges() if drop not in e]), 0))
    return out


KEYS = graphs()


def open_key(k):
    g, seed = KEYS[k]
    return bc.busgraph_cache(g, seed=seed)


NATIVE = {}


def say_cache(c):
    return json.dumps(sorted([int(n), [sorted(map(int, x)) for x in e]] for n, e in c.items()))


def native(k, kind):
    """what is computed for the key"""
    if (k, kind) not in NATIVE:
        with fresh_cache(10**6 + len(NATIVE)):
            NATIVE[k, kind] = ask(k, kind)
    return NATIVE[k, kind]


def ask(k, kind):
    b = open_key(k)
    if kind == "clique":
        return say_cache(b.get_clique_cache(sparse=True, compress=False))
    e = b.largest_balanced_biclique()
    return json.dumps(sorted([v, sorted(c)] for v, c in e.items()))


def stored(k, v):
    q = sorted(KEYS[k][0].nodes())[v % 2]
    return [[], [[q]]] if v < 3 else [[], [[q]], [[q], [sorted(KEYS[k][0].nodes())[2]]]]


def store(k, v):
    b = open_key(k)
    b.update_clique_cache(stored(k, v))


def value(k, kind, text):
    if text == native(k, kind):
        return 0
    for v in (1, 2, 3, 4):
        c = stored(k, v)
        if kind == "clique" and text == say_cache(dict(enumerate(c))):
            return v
    return -1


def perform(op):
    """[start, end, value]"""
    a = time.monotonic_ns()
    v = op["v"]
    try:
        if op["t"] == "write":
            store(op["k"], op["v"])
        else:
            v = value(op["k"], op["kind"], ask(op["k"], op["kind"]))
    except Exception:
        v = -2
    return [a, time.monotonic_ns(), v]


class Gate:
    """stops a thread before its j-th event"""

    def __init__(self, j, stop):
        self.j, self.stop, self.n, self.on = j, stop, 0, False
        self.base = os.environ["XDG_DATA_HOME"]

    def arm(self):
        self.thread = threading.get_ident()
        self.on = True

    def __call__(self, event, args):
        if not self.on or threading.get_ident() != self.thread:
            return
        if event.startswith("fcntl.") or (event.startswith(("open", "os.", "shutil.")) and args and
                                          isinstance(args[0], (str, bytes)) and self.base in os.fsdecode(args[0])):
            self.n += 1
            if self.n == self.j:
                self.on = False
                self.stop(event)


def child(fn):
    """runs fn(say) in a process of its own; yields what it says"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            fn(lambda x: os.write(w, (json.dumps(x) + "\n").encode()))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, os.fdopen(r)


class Lines:
    """lines of a pipe, with patience"""

    def __init__(self, fh):
        self.fh, self.buf = fh, b""
        os.set_blocking(fh.fileno(), False)

    def get(self, patience):
        import select
        end = time.monotonic() + patience
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            if select.select([self.fh], [], [], left)[0]:
                x = os.read(self.fh.fileno(), 65536)
                if not x:
                    return ""
                self.buf += x
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def held_process(ops, j):
    """a process that is held before its j-th event; (lines, go)"""
    gr, gw = os.pipe()

    def run(say):
        os.close(gw)

        def stop(event):
            say("held")
            os.read(gr, 1)
        gate = Gate(j, stop)
        sys.addaudithook(gate)
        for op in ops:
            gate.arm()
            say(perform(op))
    pid, fh = child(run)
    os.close(gr)
    return pid, Lines(fh), gw


def dying_process(ops, j, way, size):
    """before the j-th event the process dies, or from then on no file may grow beyond
    size, of which it dies or is told by an exception (and goes on, with room again)"""
    import resource
    import signal

    def run(say):
        def stop(event):
            if way == "die":
                os._exit(9)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if way == "write" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (size, resource.RLIM_INFINITY))
        gate = Gate(j, stop)
        sys.addaudithook(gate)
        for i, op in enumerate(ops):
            say(["start", time.monotonic_ns()])
            if i == 0:
                gate.arm()
            say(perform(op))
            if i == 0:
                say(["limited", resource.getrlimit(resource.RLIMIT_FSIZE)[0] == size, not gate.on])
                gate.on = False
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    return child(run)


def record(op, abv, dead=False):
    return dict(t=op["t"], k=op["k"] * 2 + (op["kind"] == "biclique") + 1, v=abv[2] if op["t"] == "read" or abv[2] < 0 else op["v"],
                a=abv[0], b=abv[1], dead=dead)


def ranks(ops):
    times = sorted({t for o in ops for t in (o["a"], o["b"])})
    r = {t: i for i, t in enumerate(times)}
    for o in ops:
        o["a"], o["b"] = r[o["a"]], (LATE if o["dead"] else r[o["b"]])
    return ops


def some_op(rng, keys):
    t = rng.choice(["read", "read", "write"])
    return dict(t=t, k=rng.choice(keys), kind="clique" if t == "write" else rng.choice(["clique", "clique", "biclique"]),
                v=rng.randint(1, 4))


def finish(ops, keys, done):
    """everything is read again, by a new object"""
    for k in keys:
        for kind in ("clique", "biclique"):
            op = dict(t="read", k=k, kind=kind, v=0)
            done.append(record(op, perform(op)))


def count_files():
    n = 0
    for d, _, names in os.walk(bc.busgraph_cache.cache_rootdir()):
        n = max(n, len([x for x in names if not x.startswith(".") and not x.endswith("~")]))
    return n


def fill_up():
    """a directory with as many files as there may be"""
    c = make("chimera", (1, 1, 4), "int")
    nodes = sorted(c.nodes())
    for m in range(1, 256):
        keep = [v for i, v in enumerate(nodes) if m >> i & 1]
        bc.busgraph_cache(make("chimera", (1, 1, 4), "int", keep,
                               [e for e in c.edges() if e[0] in keep and e[1] in keep])).largest_clique()


FULL = []


def full_dir():
    if not FULL:
        base = os.environ["XDG_DATA_HOME"]
        d = os.path.join(base, "full%d" % os.getpid())
        os.makedirs(d)
        os.environ["XDG_DATA_HOME"] = d
        fill_up()
        os.environ["XDG_DATA_HOME"] = base
        FULL.append(d)
    return FULL[0]


def scenario(rng, k):
    keys = rng.choice([[0, 1], [0, 0], [0, 3], [1, 2], [0, 4], [4, 5], [4, 4], [0, 1, 2]])
    setup = [some_op(rng, keys) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    first = some_op(rng, keys)
    others = [some_op(rng, keys) for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < .5:
        first.update(t="write", kind="clique")
    return keys, setup, first, others


class case_dir(fresh_cache):
    def __init__(self, k, full):
        super().__init__(k)
        self.full = full

    def __enter__(self):
        full = full_dir() if self.full else None
        super().__enter__()
        if full:
            shutil.copytree(full, self.dir, dirs_exist_ok=True)


def row(done, crashes, keys, **kw):
    return dict(ops=ranks(done), crashes=crashes, files=count_files(), **kw)


def preempt(rng, k):
    """one process is held at each of its events while others go on"""
    keys, setup, first, others = scenario(rng, k)
    for kk in set(keys):
        for kind in ("clique", "biclique"):
            native(kk, kind)
    full = rng.random() < .2
    threads = rng.random() < .4
    for j in range(1, 60):
        with case_dir(k * 100 + j, full):
            done = [record(op, perform(op)) for op in setup]
            if threads:
                held = run_threads(first, others, j, done)
            else:
                held = run_processes(first, others, j, done)
            finish([first] + others, sorted(set(keys)), done)
            yield row(done, 0, keys, how="threads" if threads else "processes", at=j)
        if not held:
            return


def run_processes(first, others, j, done):
    pid, lines, go = held_process([first], j)
    x = lines.get(20)
    held = x == "held"
    kids = []
    if held:
        for op in others:
            p, l, g = held_process([op], 0)
            kids.append((op, p, l, g))
            y = l.get(WAIT)
            if y is not None:
                done.append(record(op, y if y != "" else [0, 0, -3]))
                kids[-1] = (op, p, None, g)
        os.write(go, b"x")
        x = lines.get(20)
    done.append(record(first, x if x else [0, time.monotonic_ns(), -3]))
    os.close(go)
    os.waitpid(pid, 0)
    lines.fh.close()
    for op, p, l, g in kids:
        if l is not None:
            y = l.get(20)
            done.append(record(op, y if y else [0, time.monotonic_ns(), -3]))
        os.close(g)
        os.waitpid(p, 0)
        if l is not None:
            l.fh.close()
    return held


def run_threads(first, others, j, done):
    """the same with threads, in a process of its own (audit hooks are for ever)"""
    def run(say):
        at, go = threading.Event(), threading.Event()
        held = []

        def stop(event):
            held.append(event)
            at.set()
            go.wait(20)
        gate = Gate(j, stop)
        sys.addaudithook(gate)
        got = {}

        def work(i, op):
            if i == 0:
                gate.arm()
            got[i] = perform(op)
            gate.on = gate.on and i != 0
            if i == 0:
                at.set()
        ts = [threading.Thread(target=work, args=(0, first), daemon=True)]
        ts[0].start()
        at.wait(20)
        for i, op in enumerate(others):
            ts.append(threading.Thread(target=work, args=(i + 1, op), daemon=True))
            ts[-1].start()
            ts[-1].join(WAIT)
        go.set()
        for t in ts:
            t.join(20)
        say([bool(held), [got.get(i, [0, time.monotonic_ns(), -3]) for i in range(len(ts))]])
    pid, fh = child(run)
    lines = Lines(fh)
    x = lines.get(90)
    os.waitpid(pid, 0)
    fh.close()
    if not x:
        x = [False, [[0, time.monotonic_ns(), -3]] * (1 + len(others))]
    for op, y in zip([first] + others, x[1]):
        done.append(record(op, y))
    return x[0]


def crash(rng, k):
    """a process dies before each of its events; others come after it"""
    keys, setup, first, others = scenario(rng, k)
    for kk in set(keys):
        for kind in ("clique", "biclique"):
            native(kk, kind)
    full = rng.random() < .4
    way = rng.choice(["die", "die", "write", "write", "full"])
    size = rng.choice([0, 0, 1, 20, 60, 200, 1000])
    for j in range(1, 60):
        with case_dir(k * 100 + j, full):
            done = [record(op, perform(op)) for op in setup]
            died, reached = 0, False
            pid, fh = dying_process([first] + others[1:], j, way, size)
            said = [json.loads(x) for x in fh]
            fh.close()
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            for op in [first] + others[1:]:
                if not said:
                    break
                start = said.pop(0)[1]
                if not said:                                # died
                    died, reached = 1, True
                    if op["t"] == "write":
                        done.append(record(op, [start, start, 0], dead=True))
                    if code not in (9, -25):
                        done.append(record(op, [0, time.monotonic_ns(), -3]))
                    break
                abv = said.pop(0)
                limited = False
                if said and said[0][0] == "limited":
                    limited, reached = said.pop(0)[1:]
                if abv[2] == -2 and limited and way == "full":       # told so
                    died = 1
                    if op["t"] == "write":
                        done.append(record(op, [start, start, 0], dead=True))
                else:
                    done.append(record(op, abv))
            for op in others[:1]:
                done.append(record(op, perform(op)))
            finish([first] + others, sorted(set(keys)), done)
            yield row(done, died, keys, how="crash", way=way, at=j)
        if not reached:
            return


def lru(rng, k):
    """a history of one process over many graphs: which files there are"""
    c = make("chimera", (1, 1, 4), "int")
    nodes = sorted(c.nodes())
    pool = []
    for m in rng.sample(range(1, 256), rng.choice([60, 110, 130, 160])):
        keep = [v for i, v in enumerate(nodes) if m >> i & 1]
        pool.append(make("chimera", (1, 1, 4), "int", keep, [e for e in c.edges() if e[0] in keep and e[1] in keep]))

    def listing():
        d = os.path.join(bc.busgraph_cache.cache_rootdir(), "clique")
        return {x for x in os.listdir(d) if not x.startswith(".") and not x.endswith("~")} if os.path.isdir(d) else set()
    names = hlib.Ids([])
    files = {}
    ids = {}

    def num(x):
        return ids.setdefault(x, len(ids) + 1)
    with fresh_cache(k * 10):
        for i, g in enumerate(pool):
            with fresh_cache(10**5 * (i + 1)):
                bc.busgraph_cache(g).largest_clique()
                files[i] = [num(x) for x in sorted(listing())]
    steps = []
    with fresh_cache(k * 10 + 1):
        old = set()
        hot = rng.sample(range(len(pool)), 10)
        for _ in range(rng.choice([150, 250, 400])):
            i = rng.choice(hot) if rng.random() < .3 else rng.randrange(len(pool))
            if rng.random() < .15:
                bc.busgraph_cache(pool[i]).insert_clique_embedding([])
            elif rng.random() < .003:
                bc.busgraph_cache.clear_all_caches()
                old = set()
                steps.append(dict(file=0, made=[], gone=[]))
                continue
            else:
                bc.busgraph_cache(pool[i]).find_clique_embedding(1)
            new = listing()
            steps.append(dict(file=files[i][0] if len(files[i]) == 1 else -1, made=[num(x) for x in sorted(new - old)],
                              gone=[num(x) for x in sorted(old - new)]))
            old = new
    return [dict(steps=steps, limit=100)]


if __name__ == "__main__":
    hlib.main({"preempt": preempt, "crash": crash, "lru": lru})
