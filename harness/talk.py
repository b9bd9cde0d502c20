"""What find_embedding says while it searches, through the logger or on stdout, and how
signals and time limits end it.  Rows for spec/TalkJudge."""
import functools
import itertools
import logging
import os
import re
import signal
import sys

import hlib
from api import Problem
from minorminer import _minorminer
from minorminer import find_embedding as friendly
from hlib import as_input, enc_adj, enc_edges

TEXTS = [("init", 0, r"initialized"), ("found", 0, r"embedding found\."),
         ("fill", 2, r"max qubit fill (\d+); num maxfull qubits=(\d+)"),
         ("chain", 2, r"max chain length (\d+); num max chains=(\d+)"),
         ("minor", 1, r"\s*num max (?:qubits|chains)=(\d+)"),
         ("trial", 1, r"embedding trial (\d+)"),
         ("pass", 1, r"overfill improvement pass \((-?\d+) more.*"),
         ("passq", 2, r"max qubit fill (\d+), num max qubits (\d+)"),
         ("reduce", 0, r"reducing chain lengths"),
         ("cpass", 1, r"chainlength improvement pass \((-?\d+) more.*"),
         ("cpassq", 2, r"max chain length (\d+), num of max chains (\d+)")]


def parse(text):
    for name, n, pat in TEXTS:
        m = re.fullmatch(pat, text)
        if m:
            g = [int(x) for x in m.groups()] + [0, 0]
            return [name, g[0], g[1]]
    if "timed out" in text:
        return ["stop", 1, 0]
    if "cancelled" in text:
        return ["stop", 2, 0]
    return ["unknown", 0, 0]


class Ear(logging.Handler):
    """Listens at the logger and in place of stdout; after `after` messages it sees to it that
    a signal arrives while the search is running."""

    def __init__(self, interactive, after=None):
        logging.Handler.__init__(self)
        self.interactive, self.after = interactive, after
        self.events, self.wrong, self.buffer, self.out, self.armed = [], 0, "", [], False
        self.why, self.error = "", KeyboardInterrupt

    def heard(self, text):
        self.events.append(parse(text))
        if self.after is not None and len(self.events) == self.after:
            self.armed = True
            signal.setitimer(signal.ITIMER_REAL, .0003)

    def emit(self, record):                       # the logger
        if self.interactive or record.levelno != logging.INFO:
            self.wrong += 1
        text = record.msg
        self.heard(text.decode() if isinstance(text, bytes) else record.getMessage())

    def write(self, text):                        # stdout
        if not self.interactive:
            self.wrong += 1
        text = self.buffer + text
        if re.match(r"problem (timed out|cancelled)", text):
            text += "\n"                          # they come without
        *lines, self.buffer = text.split("\n")
        for line in lines:
            if line:
                self.heard(line)

    def flush(self):
        pass

    def on_signal(self, signum, frame):
        if not self.armed or self.out:
            return
        if frame.f_code is not self.listen.__func__.__code__:
            signal.setitimer(signal.ITIMER_REAL, .0003)   # a message is being delivered
            return
        self.armed = False
        self.events.append(["signal", 0, 0])
        raise self.error

    def listen(self, call):
        """-> exception code; the answer is in self.out"""
        log = logging.getLogger("minorminer")
        log.addHandler(self)
        log.setLevel(logging.DEBUG)
        log.propagate = False
        stdout, sys.stdout = sys.stdout, self
        old = signal.signal(signal.SIGALRM, self.on_signal)
        exc = 0
        try:
            self.out.extend(itertools.starmap(call, [()]))
        except KeyboardInterrupt:
            exc = 2
        except RuntimeError:
            exc = 1
        except Exception as e:       # noqa: BLE001
            exc, self.why = 3, repr(e)
        finally:
            self.armed = False
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            sys.stdout = stdout
            log.removeHandler(self)
        if self.buffer:
            self.heard(self.buffer)
        return exc


def setting(rng, P):
    p = {"random_seed": rng.randrange(2**31), "timeout": 600}
    if rng.random() < .8:
        p["tries"] = rng.choice([0, 1, 2, 3])
    if rng.random() < .7:
        p["max_no_improvement"] = rng.choice([1, 2, 3])
    if rng.random() < .4:
        p["inner_rounds"] = rng.choice([1, 2, 5])
    if rng.random() < .7:
        p["chainlength_patience"] = rng.choice([0, 1, 2, 4])
    if rng.random() < .2:
        p["threads"] = rng.choice([2, 3])
    if rng.random() < .2:
        p["max_fill"] = rng.choice([2, 3, 5])
    if rng.random() < .25:
        try:
            e = friendly(P.S, P.T, random_seed=rng.randrange(2**31), tries=3, timeout=20,
                         chainlength_patience=0)
        except RuntimeError:         # does not fit
            e = None
        if e:
            p["initial_chains"] = e
            p["skip_initialization"] = rng.random() < .7
    return p


def problem(rng):
    while True:
        P = Problem(rng, hi=rng.choice([6, 9, 12]), small=rng.random() < .7)
        if P.main and len(P.S):
            return P


def make_row(P, p, overlap, interactive, v, ear, exc, may):
    row = {"tries": p.get("tries", 10), "mni": p.get("max_no_improvement", 10),
           "inner": p.get("inner_rounds", 10**6), "cp": p.get("chainlength_patience", 10),
           "skip": int(p.get("skip_initialization", 0)), "interactive": int(interactive),
           "overlap": int(overlap), "v": v, "may": may, "ns": len(P.sid), "nt": len(P.tid),
           "sedges": enc_edges(P.S, P.sid), "tadj": enc_adj(P.T, P.tid),
           "events": ear.events, "wrong": ear.wrong, "exc": exc, "why": ear.why, "ret": 0, "emb": [], "runs": []}
    if not ear.out and not exc:
        row["exc"] = 3
    if ear.out:
        row["exc"] = 0        # a signal that came too late is no business of the search
        res = ear.out[0]
        if overlap:
            res, flag = res
        else:
            flag = bool(res)
        row["ret"] = int(flag)
        if res:
            chains = {P.sid[u]: [P.tid[q] for q in c] for u, c in res.items()}
            row["emb"] = [chains.get(u + 1, []) for u in range(len(P.sid))] if len(chains) == len(P.sid) else [[0]]
        row["events"].append(["end", row["ret"], 0])
    else:
        row["events"].append(["exc", row["exc"], 0])
    return row


def target(rng, P, p, overlap, interactive, v):
    """The search as a callable without a python frame"""
    kw = dict(p, return_overlap=overlap, interactive=interactive, verbose=v)
    if not interactive and rng.random() < .5:
        del kw["interactive"]
    ins = as_input(rng, P.S)[0], as_input(rng, P.T)[0]
    if "initial_chains" in p:
        ins = P.S, P.T        # of components of the same size the first one is the target
    if rng.random() < .3:
        return _minorminer.miner(*ins, **kw).find_embedding
    return functools.partial(_minorminer.find_embedding, *ins, **kw)


def log(rng, k):
    """The same search at every verbosity, to the logger and to stdout."""
    P = problem(rng)
    p, overlap = setting(rng, P), rng.random() < .6
    same = P.S, P.T

    def once(interactive, v):
        kw = dict(p, return_overlap=overlap, verbose=v)
        if interactive:
            kw["interactive"] = True
        ear = Ear(interactive)
        exc = ear.listen(functools.partial(friendly, *same, **kw))
        return ear, exc
    interactive = rng.random() < .4
    ear, exc = once(interactive, 3)
    row = make_row(P, p, overlap, interactive, 3, ear, exc, [])
    for v in sorted(rng.sample([0, 1, 2, 3], 2)):
        inter = rng.random() < .4
        other, oexc = once(inter, v)
        tail = row["events"][-1]
        row["runs"].append({"v": v, "events": other.events + [tail], "wrong": other.wrong,
                            "same": int(other.out == ear.out and (oexc == exc))})
    yield row


def stop(rng, k):
    """A signal, or the end of the time, in the middle of a search."""
    P = problem(rng)
    p, overlap = setting(rng, P), rng.random() < .6
    interactive = rng.random() < .5
    v = rng.choice([3, 3, 3, 2, 1])
    may, after = [], None
    if rng.random() < .3:
        p["timeout"] = rng.choice([0, 1e-9, 1e-4, .001, .003, .01])
        may = [1]
    else:
        after = rng.choice([1, 1, 2, 3, 4, 6, 9, 14])
        p["tries"] = rng.choice([3, 10])
        p["max_no_improvement"] = rng.choice([3, 10])
        if rng.random() < .5:
            p["chainlength_patience"] = 100
    ear = Ear(interactive, after)
    ear.error = rng.choice([KeyboardInterrupt, KeyboardInterrupt, OSError, StopIteration])
    exc = ear.listen(target(rng, P, p, overlap, interactive, v))
    yield make_row(P, p, overlap, interactive, v, ear, exc, may)


class Deaf:
    """sys.stdout, without python code"""
    write = None

    def flush(self):
        pass


def kill(rng, k):
    """A signal at a message: nothing but a poll can notice it, and the next one has to."""
    sys.path.insert(0, os.environ["SINK"])
    import sink
    P = problem(rng)
    p, overlap = setting(rng, P), rng.random() < .6
    if rng.random() < .7:
        p["tries"] = rng.choice([3, 10])
        p["max_no_improvement"] = rng.choice([3, 10])
    if rng.random() < .5:
        p["chainlength_patience"] = rng.choice([10, 100])
    interactive = rng.random() < .5
    ear = Ear(interactive)
    call = target(rng, P, p, overlap, interactive, 3)
    log = logging.getLogger("minorminer._minorminer")
    said = []
    after = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 20, 30])
    sink.listen(said, after)
    Deaf.write = sink.say
    old, stdout, exc = signal.signal(signal.SIGINT, signal.default_int_handler), sys.stdout, 0
    handlers = log.info, log.error
    out = Deaf()
    try:
        if interactive:
            sys.stdout = out
        else:
            log.info, log.error = sink.say, sink.say
        ear.out.extend(itertools.starmap(call, [()]))
    except KeyboardInterrupt:
        exc = 2
    except RuntimeError:
        exc = 1
    except Exception as e:           # noqa: BLE001
        exc, ear.why = 3, repr(e)
    try:
        sys.stdout = stdout
        log.info, log.error = handlers
        signal.signal(signal.SIGINT, old)
    except KeyboardInterrupt:        # what happens at the very end
        pass
    sys.stdout = stdout
    log.info, log.error = handlers
    signal.signal(signal.SIGINT, signal.default_int_handler)
    sink.listen([], -1)
    for n, text in enumerate(said):
        ear.wrong += isinstance(text, str) != interactive
        text = text if isinstance(text, str) else text.decode()
        if text.strip("\n"):
            ear.events.append(parse(text.strip("\n")))
        if n + 1 == after:
            ear.events.append(["kill", 0, 0])
    yield make_row(P, p, overlap, interactive, 3, ear, exc, [])


if __name__ == "__main__":
    hlib.main(dict(log=log, stop=stop, kill=kill))
