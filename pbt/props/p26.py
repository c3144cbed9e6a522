import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, rejected
from .. import oracle as O
from ..gen import (entries, build_entry, seeds, same as equal, qubits_of,
                   UnitarySequence)
from .. import world as W
from .p23 import same
from .p24 import everything

RULE = ("objects and sequences in the middle of a history, duplicated by "
        "copy.deepcopy or pickle, and further histories of both; "
        "non-trivial: a sequence edited before and after, or a world of "
        "objects called after duplication")


def dup(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(
        x, protocol={"pickle": pickle.HIGHEST_PROTOCOL, "pickle2": 2}[how]))


hows = st.sampled_from(["deepcopy", "pickle", "pickle2"])


# ---- sequences -----------------------------------------------------------
@st.composite
def ops(draw, k, top):
    g = st.integers(0, k - 1)
    save = st.sampled_from([None, None, True, False])
    return [list(x) for x in draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["append_first", "append_last"]), g, save),
        st.tuples(st.sampled_from(["remove_first", "remove_last"]),
                  st.just(0), save),
        st.tuples(st.sampled_from(["undo", "product", "get", "text"]),
                  st.just(0), st.none())), max_size=top))]


@st.composite
def seq_specs(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    pool = [draw(entries(n)) for _ in range(draw(st.integers(1, 4)))]
    k = len(pool)
    return dict(n=n, pool=pool, how=draw(hows),
                init=draw(st.lists(st.integers(0, k - 1), max_size=8)),
                ops=[draw(ops(k, 8)), draw(ops(k, 8)), draw(ops(k, 8))],
                what=draw(st.sampled_from(["seq", "seq", "list", "dict"])))


class Tracked:
    """A sequence with the gates it should hold and its saved state."""

    def __init__(self, s, lib, mods):
        self.n, self.d = s["n"], 2 ** s["n"]
        self.lib, self.mods = lib, mods
        self.cur, self.undo = list(s["init"]), None
        self.q = UnitarySequence(self.d, [lib[i] for i in self.cur])

    def product(self):
        return O.product([self.mods[i].full(self.n) for i in self.cur],
                         self.d)

    def apply(self, op, i, save, what):
        if op == "undo":
            if self.undo is None:
                check(rejected(self.q.undo), what, "undo without a state")
            else:
                self.q.undo()
                self.cur, self.undo = self.undo, None
        elif op == "product":
            equal(self.q.product(), self.product(), what + " product")
        elif op == "get":
            self.verify(what)
        elif op == "text":
            t = self.q.get_display_output().rstrip("\n").split("\n")
            check(len(t) == len(self.cur) + 1, what, "text", t)
        else:
            kw = {} if save is None else dict(save_undo=save)
            before = list(self.cur)
            if op.startswith("append"):
                getattr(self.q, op)(self.lib[i], **kw)
                self.cur.insert(0 if op == "append_first"
                                else len(self.cur), i)
            else:
                getattr(self.q, op)(**kw)
                if self.cur:
                    self.cur.pop(0 if op == "remove_first" else -1)
            if save is not False and self.cur != before:
                self.undo = before

    def verify(self, what):
        got = self.q.get_sequence_entries()
        check(self.q.get_length() == len(got) == len(self.cur), what,
              "holds", len(got), "gates, expected", len(self.cur))
        for j, (e, i) in enumerate(zip(got, self.cur)):
            m = self.mods[i]
            w = "%s gate %d" % (what, j)
            check(qubits_of(e, w) == list(m.q), w, "is on", e.get_apply_to())
            u = e.get_full_unitary(self.d)
            equal(u, m.full(self.n), w)
            check(u.get_operation_name() == m.name, w, "is named",
                  u.get_operation_name())
            check(u.get_display_name().endswith("†") == m.inv, w,
                  "is shown as", u.get_display_name())

    def finish(self, what):
        self.verify(what)
        equal(self.q.product(), self.product(), what + " product")
        self.apply("undo", 0, None, what)
        self.verify(what + " undone")
        equal(self.q.product(), self.product(), what + " product undone")
        check(rejected(self.q.undo), what, "undone twice")


def sequence(s, rec):
    built = [build_entry(e) for e in s["pool"]]
    a = Tracked(s, [b[0] for b in built], [b[1] for b in built])
    for op in s["ops"][0]:
        a.apply(*op, "sequence")
    b = copy.copy(a)
    b.cur, b.undo = copy.deepcopy([a.cur, a.undo])
    # inside another container, too
    if s["what"] == "seq":
        b.q = dup(a.q, s["how"])
    elif s["what"] == "list":
        b.q = dup([a.q, a.lib], s["how"])[0]
    else:
        b.q, b.lib = dup(dict(x=(a.q, a.lib)), s["how"])["x"]
    for i in range(max(len(s["ops"][1]), len(s["ops"][2]))):
        for t, what, todo in ((a, "original", s["ops"][1]),
                              (b, "copy", s["ops"][2])):
            if i < len(todo):
                t.apply(*todo[i], what)
    a.finish("original")
    b.finish("copy")
    rec.note(s["how"], s["what"])
    rec.hard(len(s["ops"][0]) > 0 and len(s["ops"][1] + s["ops"][2]) > 0)


# ---- everything else -----------------------------------------------------
@st.composite
def world_specs(draw):
    return dict(w=draw(W.worlds()), s=draw(seeds), how=draw(hows),
                before=draw(st.lists(st.sampled_from(sorted(W.CALLS)),
                                     max_size=4)),
                after=draw(st.lists(st.sampled_from(sorted(W.CALLS)),
                                    min_size=1, max_size=5)))


PLAIN = ["seq", "edit", "entries", "terms", "ham", "gate"]


def world(s, rec):
    w = W.World(s["w"])
    W.reseed(s["s"])
    for op in s["before"]:
        W.CALLS[op](w)
    if s["how"] == "deepcopy":
        v = copy.deepcopy(w)
    else:
        # functions do not pickle, everything without them does
        v = copy.copy(w)
        v.__dict__.update(dup({k: w.__dict__[k] for k in PLAIN}, s["how"]))
        v.p = copy.copy(w.p)
        v.p.target = dup(w.p.target, s["how"])
        r = w.p.compiler.compile(w.p.target, w.p.s["t"], 5)
        x = dup(r, s["how"])
        same(W.f_result(r), W.f_result(x), "result", "copied")
        check(x.total_elapsed_time == r.total_elapsed_time, "elapsed time",
              "of the copied result is", x.total_elapsed_time)
    first = everything(w)
    second = everything(v)
    for k in first:
        same(first[k], second[k], k, "copied")
    for op in s["after"]:
        W.reseed(s["s"])
        a = W.CALLS[op](w)
        W.reseed(s["s"])
        same(a, W.CALLS[op](v), op, "with a copy")
    # and neither took part in the calls of the other
    for k, x in everything(w).items():
        same(first[k], x, k, "after use of a copy")
    rec.note(s["how"])
    rec.hard(len(s["after"]) > 1)


SUBS = [
    Sub("sequence", seq_specs(), sequence, 500),
    Sub("world", world_specs(), world, 130),
]
