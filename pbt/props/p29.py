import gc
import locale
import os
import signal
import sys
import warnings
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, HarnessError
from ..gen import Guard, seeds, uf, hspecs, herm
from ..comp import problems, Problem
from ..ham import Hamiltonian, HamiltonianTerm
from .. import world as W
from ..runner import REPO
from .p23 import same
from .p24 import everything

RULE = ("a world of objects and a call which is broken off, at a generated "
        "point of the library's code or by an error of a user's gate "
        "function; non-trivial: it was broken off after at least one fifth "
        "of its course, or at the second or later gate")

ROOT = os.path.realpath(os.path.join(REPO, "stoqcompiler")) + os.sep

def part(w):
    """Layers of some of the gates only."""
    ks = [(p, c) for p, c in w.counts.items() if c] or list(
        w.counts.items())
    return dict(ks[len(ks) // 2:])


OWN = {"read": lambda w: W.f_seq(w.seq),
       "product of it": lambda w: W.f_unitary(w.seq.product()),
       "part": lambda w: W.f_result(w.p.compiler.compile_layered(
           w.p.target, part(w), w.p.s["t"], w.steps())),
       "placing": lambda w: [W.f_entry(e, w.d) for e in w.entries]}
CALL = dict(W.CALLS, **OWN)
CALLS = ["inverse", "product of it", "part", "compile", "layered", "rav", "lrav"] \
    + sorted(set(CALL) - {"edit", "params", "value", "random", "builtin",
                          "entry"})
COMPILING = ["part", "compile", "layered", "rav", "lrav", "xeb", "entry", "layer"]


class Interrupt(KeyboardInterrupt):
    pass


class Fault(Exception):
    pass


FAULTS = {"error": Fault, "memory": MemoryError, "value": ValueError,
          "assert": AssertionError, "arith": FloatingPointError}


def tracer(limit=None):
    """Counts the lines executed in the library; breaks off at one."""
    count = [0, {}]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if limit is None:
                count[1].setdefault((frame.f_code.co_filename,
                                     frame.f_lineno), []).append(count[0])
            if count[0] == limit:
                raise Interrupt()
        return local

    def trace(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(ROOT) else None
    return count, trace


def traced(call, limit=None):
    count, trace = tracer(limit)
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        call()
        check(limit is None or count[0] < limit, "a call which was broken "
              "off returned as if it had finished")
        return count, False
    except Interrupt:
        return count, True
    finally:
        sys.settrace(old)


class Breaker(Guard):
    """Lets a user's gate function fail at its n-th evaluation."""

    def __init__(self):
        super().__init__()
        self.at = None
        self.exc = Fault

    def tick(self):
        self.n += 1
        if self.n == self.at:
            raise self.exc("no such gate")


def later(w, s):
    """What the objects are and do."""
    out = [everything(w)]
    for i, op in enumerate(s["ops"]):
        W.reseed(s["s"] + i)
        out.append([op, W.CALLS[op](w)])
    W.reseed(s["s"])
    out.append([s["op"], CALL[s["op"]](w)])
    return out


def compare(a, b, what):
    for k in a[0]:
        same(a[0][k], b[0][k], what, "changed %s:" % k)
    for x, y in zip(a[1:], b[1:]):
        same(x, y, what, "changed a later call of %s:" % x[0])


def settings():
    """What calls could change outside their arguments."""
    handlers = [(s, signal.getsignal(s)) for s in (
        signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]
    return dict(errors=np.geterr(), call=np.geterrcall(),
                printing={k: v for k, v in np.get_printoptions().items()},
                filters=list(warnings.filters), showwarning=id(
                    warnings.showwarning), signals=handlers,
                cwd=os.getcwd(), env=dict(os.environ), path=list(sys.path),
                depth=sys.getrecursionlimit(), gc=gc.isenabled(),
                hook=id(sys.excepthook), out=id(sys.stdout),
                err=id(sys.stderr), umask=os.umask(os.umask(0o022)),
                locale=locale.setlocale(locale.LC_ALL))


def unchanged(before, what):
    after = settings()
    for k in before:
        check(before[k] == after[k], what, "changed the process:", k,
              "was", before[k], "is", after[k])


@st.composite
def specs(draw, user=False):
    w = draw(W.worlds())
    if user:
        k = draw(st.sampled_from(["c1", "c2", "c3", "c0"]))
        r = dict(c1=1, c2=2, c3=3, c0=0)[k]
        p = dict(k=k, a=None, r=[[-1.0, 2.0, False]] * r)
        w["p"] = dict(w["p"], ps=[dict(p) for _ in w["p"]["ps"]],
                      tgt=dict(k="mat", m=dict(
                          k="haar", d=2 ** w["p"]["n"], s=draw(seeds),
                          g=0.0)))
        if not any(w["p"]["counts"]):
            w["p"]["counts"] = [1] * len(w["p"]["ps"])
    return dict(w=w, op=draw(st.sampled_from(
        COMPILING + ["params"] if user else CALLS)), s=draw(seeds),
        s2=draw(seeds), at=[draw(uf(0, 1)) for _ in range(3)],
        where=[draw(uf(0, 1)) for _ in range(3)],
        exc=draw(st.sampled_from(sorted(FAULTS))),
        ops=draw(st.lists(st.sampled_from(sorted(W.CALLS)), max_size=3)))


def interrupted(s, rec):
    """A call broken off anywhere leaves the objects as they were."""
    call = CALL[s["op"]]
    ref = later(W.World(s["w"]), s)
    W.reseed(s["s2"])
    w = W.World(s["w"])
    W.reseed(s["s2"])
    before = settings()
    (total, lines), _ = traced(lambda: call(w))
    unchanged(before, s["op"])
    w = W.World(s["w"])
    n = 0
    before = settings()
    # points spread over the time, and over the lines of the code
    limits = [max(1, int(total * at)) for at in s["at"]]
    for at, x in zip(s["at"], s["where"]):
        here = lines[sorted(lines)[int(x * 0.999 * len(lines))]]
        limits.append(here[int(at * 0.999 * len(here))])
    for limit in limits:
        W.reseed(s["s2"])
        n += traced(lambda: call(w), limit)[1]
    unchanged(before, "breaking off %s" % s["op"])
    if not n:
        raise HarnessError("%s was not broken off" % s["op"])
    compare(ref, later(w, s), "breaking off %s" % s["op"])
    rec.note(s["op"])
    rec.hard(max(s["at"]) >= 0.2)


def failing(s, rec):
    """A user's gate function which fails is reported and leaves no trace."""
    call = CALL[s["op"]]
    ref = later(W.World(s["w"], Breaker()), s)
    b = Breaker()
    w = W.World(s["w"], b)
    b.n = 0
    W.reseed(s["s2"])
    before = settings()
    call(w)
    unchanged(before, s["op"])
    if not b.n:
        return
    at = 1 + int(b.n * s["at"][0] * 0.999)
    b = Breaker()
    b.exc = FAULTS[s["exc"]]
    w = W.World(s["w"], b)
    W.reseed(s["s2"])
    b.n, b.at = 0, at
    try:
        call(w)
        check(b.n < at, s["op"], "hides an error of a gate function, "
              "evaluation", at)
    except tuple(FAULTS.values()) as e:
        check(b.n >= at, s["op"], "raised", type(e).__name__)
    unchanged(before, "failing %s" % s["op"])
    b.at = None
    compare(ref, later(w, s), "failing %s" % s["op"])
    rec.note(s["op"], s["exc"])
    rec.hard(at >= 2)


@st.composite
def extreme_specs(draw):
    p = draw(problems(sizes=(2, 3, 3, 1), max_steps=30))
    p = dict(p, r=draw(st.sampled_from([5e3, 1e6, 0.0, 1e300, 3.0])),
             t=draw(st.sampled_from([1.0, 0.99, None])),
             ap=draw(st.sampled_from([1, 0.8, 0.5])))
    if draw(st.booleans()):
        p = dict(p, tgt=dict(k="mat", m=draw(st.sampled_from([
            dict(k="diag", d=2 ** p["n"], w=[0] * 2 ** p["n"], g=0.0),
            dict(k="haar", d=2 ** p["n"], s=draw(seeds), g=0.0)]))))
    return dict(p=p, h=draw(hspecs(2, 0.5, 50.0)), t=draw(st.sampled_from(
        [1e3, 1e-12, 1.0, -1e5])), tiny=draw(st.sampled_from(
            [1.0, 1e-9, 1e6, 1e-300])))


def extreme(s, rec):
    """Extreme but valid values leave the process as it was."""
    p = Problem(s["p"])
    before = settings()
    p.run()
    unchanged(before, "compiling")
    m = herm(s["h"])
    h = Hamiltonian([HamiltonianTerm(m), HamiltonianTerm(m * s["tiny"])])
    h.get_trotter_sequence(s["t"] / max(1.0, s["tiny"]), 3, True).product()
    h.get_qdrift_sequence(s["t"] / max(1.0, s["tiny"]), 3).product()
    p.target.distance_from(p.target.inverse())
    unchanged(before, "simulating")
    rec.note("rate=%g" % s["p"]["r"])
    rec.hard(s["p"]["steps"] > 2)


SUBS = [
    Sub("interrupted", specs(), interrupted, 300),
    Sub("failing", specs(True), failing, 300),
    Sub("extreme", extreme_specs(), extreme, 160),
]
