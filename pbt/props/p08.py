import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, rejected
from .. import oracle as O
from ..gen import (entries, build_entry, same, check_entries,
                   UnitarySequence, models_product)

RULE = ("program over up to 6 sequences sharing gate objects (invert, "
        "combine, edit, undo, read products); every live sequence is checked "
        "at the end; non-trivial: an inverse or combination of a sequence "
        "with at least two gates")


@st.composite
def specs(draw):
    n = draw(st.sampled_from([2, 1, 3, 2, 4]))
    pool = [draw(entries(n)) for _ in range(draw(st.integers(1, 4)))]
    idx = st.integers(0, len(pool) - 1)
    seqs = [dict(i=draw(st.lists(idx, max_size=5)),
                 how=draw(st.sampled_from(["list", "array", "append"])))
            for _ in range(draw(st.integers(1, 3)))]
    ops = []
    live = len(seqs)
    for _ in range(draw(st.integers(1, 12))):
        r = st.integers(0, live - 1)
        k = draw(st.sampled_from(
            ["inv", "comb", "inv", "comb", "prod", "af", "al", "rf", "rl",
             "undo"]))
        if k == "inv" and live < 7:
            ops.append([k, draw(r)])
            live += 1
        elif k == "comb" and live < 7:
            ops.append([k, draw(st.lists(r, min_size=1, max_size=4))])
            live += 1
        elif k in ("af", "al"):
            ops.append([k, draw(r), draw(idx), draw(st.booleans())])
        elif k in ("rf", "rl"):
            ops.append([k, draw(r), draw(st.booleans())])
        elif k in ("prod", "undo"):
            ops.append([k, draw(r)])
    return dict(n=n, pool=pool, seqs=seqs, ops=ops)


class S:
    def __init__(self, lib, cur, undo=None):
        self.lib, self.cur, self.undo = lib, cur, undo


def program(s, rec):
    n = s["n"]
    d = 2 ** n
    built = [build_entry(e) for e in s["pool"]]
    live = []
    for q in s["seqs"]:
        es = [built[i][0] for i in q["i"]]
        ms = [built[i][1] for i in q["i"]]
        undo = None
        if q["how"] == "append":
            u = UnitarySequence(d)
            for j, e in enumerate(es):
                u.append_last(e)
                undo = ms[:j]
        elif q["how"] == "array":
            arr = np.empty(len(es), dtype=object)
            arr[:] = es
            u = UnitarySequence(d, arr)
        else:
            u = UnitarySequence(d, es)
        live.append(S(u, ms, undo))
    big = 0
    for o in s["ops"]:
        k = o[0]
        x = live[o[1]] if k != "comb" else None
        if k == "inv":
            live.append(S(x.lib.inverse(),
                          [m.inverse() for m in reversed(x.cur)]))
            big += len(x.cur) >= 2
        elif k == "comb":
            xs = [live[i] for i in o[1]]
            while len(xs) > 1 and sum(len(y.cur) for y in xs) > 40:
                xs.pop()
            cur = [m for y in xs for m in y.cur]
            live.append(S(UnitarySequence.combine(*[y.lib for y in xs]),
                          cur))
            big += len(xs) >= 2 and len(cur) >= 2
        elif k == "prod":
            same(x.lib.product(), models_product(x.cur, n), "product")
        elif k in ("af", "al"):
            e, m = built[o[2]]
            if o[3]:
                x.undo = list(x.cur)
            if k == "af":
                x.lib.append_first(e, save_undo=o[3])
                x.cur = [m] + x.cur
            else:
                x.lib.append_last(e, save_undo=o[3])
                x.cur = x.cur + [m]
        elif k in ("rf", "rl"):
            if x.cur and o[2]:
                x.undo = list(x.cur)
            if k == "rf":
                x.lib.remove_first(save_undo=o[2])
                x.cur = x.cur[1:]
            else:
                x.lib.remove_last(save_undo=o[2])
                x.cur = x.cur[:-1]
        elif k == "undo" and x.undo is not None:
            x.lib.undo()
            x.cur, x.undo = x.undo, None
        elif k == "undo":
            check(rejected(x.lib.undo), "undo accepted although nothing "
                  "was changed since the sequence was made or undone")
    for j, x in enumerate(live):
        what = "sequence %d" % j
        if x.undo is None:
            check(rejected(x.lib.undo), what, "can be undone although "
                  "nothing was changed since it was made or undone")
        want = models_product(x.cur, n)
        check(x.lib.get_dimension() == d, what, "has dimension",
              x.lib.get_dimension())
        check(x.lib.get_length() == len(x.cur), what, "has length",
              x.lib.get_length(), "expected", len(x.cur))
        check_entries(x.lib.get_sequence_entries(), x.cur, n, what)
        same(x.lib.product(), want, what + " product")
        same(UnitarySequence(d, x.lib.get_sequence_entries()).product(),
             want, what + " product recomputed")
        inv = x.lib.inverse()
        check_entries(inv.get_sequence_entries(),
                      [m.inverse() for m in reversed(x.cur)], n,
                      "inverse of " + what)
        same(inv.product(), want.conj().T, "inverse product of " + what)
        both = UnitarySequence.combine(x.lib, inv)
        same(both.product(), np.eye(d), what + " followed by its inverse")
        same(UnitarySequence(d, both.get_sequence_entries()).product(),
             np.eye(d), what + " followed by its inverse, recomputed")
        check(rejected(inv.undo), "a fresh inverse can be undone")
        check(rejected(both.undo), "a fresh combination can be undone")
        twice = inv.inverse()
        check_entries(twice.get_sequence_entries(), x.cur, n,
                      "double inverse of " + what)
        same(twice.product(), want, "double inverse product of " + what)
        check_entries(x.lib.get_sequence_entries(), x.cur, n,
                      what + " afterwards")
    rec.note("live=%d" % len(live), "n=%d" % n)
    rec.hard(big >= 1)


@st.composite
def long_specs(draw):
    n = draw(st.sampled_from([1, 2, 3, 1]))
    pool = [draw(entries(n, max_k=2)) for _ in range(draw(st.integers(2, 5)))]
    idx = st.integers(0, len(pool) - 1)
    k = draw(st.integers(7, 24))
    ops = draw(st.lists(st.tuples(st.sampled_from(
        ["rl", "rl", "al", "al", "af", "rf", "swap", "swap", "undo"]), idx),
        min_size=2, max_size=7))
    return dict(n=n, pool=pool, i=draw(st.lists(
        idx, min_size=k, max_size=k)), ops=[list(o) for o in ops],
        skip=draw(st.integers(0, 2 ** 7)))


def long(s, rec):
    """One long sequence, inverted and combined after every edit."""
    n, d = s["n"], 2 ** s["n"]
    built = [build_entry(e) for e in s["pool"]]
    q = UnitarySequence(d, [built[i][0] for i in s["i"]])
    cur = [built[i][1] for i in s["i"]]
    undo = None

    def look(when):
        inv = q.inverse()
        want = [m.inverse() for m in reversed(cur)]
        check_entries(inv.get_sequence_entries(), want, n,
                      "inverse " + when)
        same(inv.product(), models_product(want, n), "inverse " + when)
        both = UnitarySequence.combine(q, inv, q)
        check_entries(both.get_sequence_entries(), cur + want + cur, n,
                      "combination " + when)
        same(both.product(), models_product(cur, n), "combination " + when)
    look("at first")
    for j, (k, i) in enumerate(s["ops"]):
        e, m = built[i]
        old = list(cur)
        if k == "al":
            q.append_last(e)
            cur = cur + [m]
        elif k == "af":
            q.append_first(e)
            cur = [m] + cur
        elif k == "rl":
            q.remove_last()
            cur = cur[:-1]
        elif k == "rf":
            q.remove_first()
            cur = cur[1:]
        elif k == "swap":
            # same length, another end
            q.remove_last()
            old = cur[:-1]
            q.append_last(e)
            cur = old + [m]
        elif undo is not None:
            q.undo()
            old, cur = None, undo
        undo = old if k != "undo" else None
        if not s["skip"] >> j & 1:
            look("after edit %d" % j)
    look("at last")
    rec.note("n=%d" % n)
    rec.hard(len(cur) > 8)


SUBS = [Sub("program", specs(), program, 350),
        Sub("long", long_specs(), long, 120)]
