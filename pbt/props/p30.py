import collections
import copy
import random
import sys
import threading
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from ..gen import seeds, uf, UnitarySequence
from .. import world as W
from .p23 import same
from .p24 import everything
from .p29 import ROOT

RULE = ("two threads with 1..3 calls each on objects that share their gates, "
        "switched at generated lines of the library, each with a random "
        "state of its own; non-trivial: at least two switches happened "
        "inside calls")

CALLS = ["compile", "inverse", "layered", "rav", "lrav"] + sorted(
    set(W.CALLS) - {"params", "value", "builtin", "entry"})
SEARCH = ["compile", "compile", "layered", "rav", "lrav"]


class Stuck(Exception):
    pass


class Threads:
    """Runs two functions in turns, switching at the given line counts of
    the library code. Each has its own random state. One that waits for the
    other (a lock) makes the run unusable: both then run freely."""

    def __init__(self, seeds_, gaps, quiet, places=()):
        self.places = set(places)
        self.budget = 40
        self.quiet = quiet
        self.cv = threading.Condition()
        self.turn = 0
        self.done = [False, False]
        self.out = [None, None]
        self.stuck = False
        self.switches = 0
        self.left = list(gaps)
        self.lines = self.left.pop(0) if self.left else None
        self.states = []
        for s in seeds_:
            W.reseed(s)
            self.states.append(self.state())

    @staticmethod
    def state():
        return np.random.get_state(), random.getstate()

    def switch(self, me):
        with self.cv:
            if self.stuck or self.done[1 - me]:
                return
            self.switches += 1
            self.states[me] = self.state()
            self.turn = 1 - me
            self.cv.notify_all()
            self.wait(me)

    def wait(self, me):
        if not self.cv.wait_for(lambda: self.turn == me or self.stuck, 20):
            self.stuck = True
            self.cv.notify_all()
        if not self.stuck:
            np.random.set_state(self.states[me][0])
            random.setstate(self.states[me][1])

    def line(self, me, frame):
        if self.quiet and W.reading.depth:
            return
        if self.places and self.budget and (
                frame.f_code.co_filename, frame.f_lineno) in self.places:
            self.budget -= 1
            self.switch(me)
            return
        if self.lines is None:
            return
        self.lines -= 1
        if self.lines <= 0:
            self.lines = self.left.pop(0) if self.left else None
            self.switch(me)

    def body(self, me, fn):
        def local(frame, event, arg):
            if event == "line":
                self.line(me, frame)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(ROOT) \
                else None
        with self.cv:
            self.wait(me)
        sys.settrace(trace)
        try:
            self.out[me] = (True, fn())
        except BaseException as e:
            self.out[me] = (False, e)
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[me] = True
                self.states[me] = self.state()
                if self.turn == me:
                    self.turn = 1 - me
                self.cv.notify_all()

    def run(self, fns):
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True)
              for i, f in enumerate(fns)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if self.stuck:
            raise Stuck()
        for ok, r in self.out:
            if not ok:
                raise r
        return [r for _, r in self.out]


def partner(w):
    """A world with the same gates, targets and terms, but a compiler, a
    Hamiltonian and sequences of its own."""
    v = copy.copy(w)
    v.p = copy.copy(w.p)
    v.p.compiler = v.p.make(annealing_rate=w.p.s["r"] + 0.3)
    v.seq = UnitarySequence(w.d, list(w.entries))
    v.edit = UnitarySequence(w.d, list(w.entries[:1]))
    v.ham = W.Hamiltonian(list(reversed(w.terms))[:-1])
    return v


def count(fn, quiet):
    n = collections.Counter()

    def local(frame, event, arg):
        if event == "line" and not (quiet and W.reading.depth):
            n[frame.f_code.co_filename, frame.f_lineno] += 1
        return local
    old = sys.gettrace()
    sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(
        ROOT) else None)
    try:
        out = fn()
    finally:
        sys.settrace(old)
    return out, n


@st.composite
def specs(draw):
    ops = [draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=3))
           for _ in range(2)]
    if draw(st.booleans()):
        # both do the same
        ops[1] = list(ops[0])
    how = draw(st.sampled_from(["spread", "dense", "place", "place"]))
    at, every = None, False
    if how == "place":
        # at every execution of one to three lines of the code
        gaps, where = [], None
        pick = draw(st.integers(0, 2))
        if pick == 0:
            ops = [[draw(st.sampled_from(CALLS))]] * 2
        elif pick == 1:
            ops = [[draw(st.sampled_from(SEARCH))] for _ in range(2)]
        # several such schedules in turn, or one for every line
        every = pick == 0 and ops[0][0] not in SEARCH
        few = pick == 1 or any(x in SEARCH for o in ops for x in o)
        at = draw(st.lists(st.lists(uf(0, 1), min_size=1, max_size=2),
                           min_size=3, max_size=6 if few else 16))
    elif how == "spread":
        # the switches are spread over the whole course
        gaps = draw(st.lists(uf(0, 1), min_size=4, max_size=24))
        where = None
    else:
        # or many in a short part of it
        gaps = draw(st.lists(st.integers(1, 150), min_size=8, max_size=60))
        where = draw(st.one_of(st.just(0.0), uf(0, 1)))
    return dict(w=draw(W.worlds()), s=[draw(seeds), draw(seeds)], ops=ops,
                gaps=gaps, where=where, at=at, every=every,
                # no switches while results are inspected
                quiet=draw(st.booleans()))


def threads(s, rec):
    def calls(w, ops):
        return lambda: [W.CALLS[op](w) for op in ops]
    alone, total, lines = [], 0, None
    for i in (0, 1):
        w = W.World(s["w"])
        v = w if i == 0 else partner(w)
        W.reseed(s["s"][i])
        r, n = count(calls(v, s["ops"][i]), s["quiet"])
        alone.append(r)
        total += sum(n.values())
        lines = set(n) & (lines or set(n)) or set(n)
    before = everything(W.World(s["w"]))
    runs = [[sorted(lines)[int(x * 0.999 * len(lines))] for x in a]
            for a in (s["at"] or []) if lines] or [[]]
    if s["at"] and s["every"] and len(lines) <= 150:
        runs = [[x] for x in sorted(lines)]
    switches = [interleave(s, rec, calls, alone, total, places, before)
                for places in runs]
    if not any(switches):
        return
    rec.note(*s["ops"][0])
    rec.hard(max(switches) >= 2)


def interleave(s, rec, calls, alone, total, places, before):
    w = W.World(s["w"])
    if places or not s["gaps"]:
        gaps = []
    elif s["where"] is None:
        g = np.array(s["gaps"]) + 0.01
        gaps = [max(1, int(x)) for x in g / g.sum() * total * 0.9]
    else:
        gaps = [max(1, int(s["where"] * total / 2))] + s["gaps"]
    t = Threads(s["s"], gaps, s["quiet"], places)
    try:
        got = t.run([calls(w, s["ops"][0]), calls(partner(w),
                                                  s["ops"][1])])
    except Stuck:
        rec.note("stuck")
        return 0
    for i in (0, 1):
        for op, x, y in zip(s["ops"][i], alone[i], got[i]):
            same(x, y, op, "interleaved with %s in another thread" %
                 s["ops"][1 - i])
    after = everything(w)
    for k in before:
        same(before[k], after[k], "threads", "changed %s:" % k)
    check(len(got) == 2, "threads")
    return t.switches


SUBS = [
    Sub("threads", specs(), threads, 500),
]
