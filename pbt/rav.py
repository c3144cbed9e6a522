"""Checks of RAV generation, shared by its plain and layered forms."""
import itertools
import numpy as np
from hypothesis import strategies as st

from . import oracle as O, stats
from .core import check
from .comp import (problems, Problem, expected, letter_specs, Words, decode,
                   step_counts, gate_key, probs, timed)
from .gen import Guard, Prim, matrix_of, seeds, fl, uf, mat, qubits_of
from .props.p13 import Tally, beta_at
from .props.p15 import judge, laws, sets as gate_draws

from stoqcompiler.verification import Verification


@st.composite
def specs(draw, lay):
    s = draw(problems(layered=lay, sizes=(2, 1, 2, 3)))
    s["len"] = draw(st.sampled_from([3, 2, 5, 1, 4, 8, 0, 6, 3, 2, 5, 1, 4,
                                     7, 17, 40 if not lay else 12]))
    if draw(st.integers(0, 5)) == 0:
        s["t"] = draw(uf(0.0, 0.3))
    s["steps"] = draw(step_counts(24))
    s["tgt"] = dict(k="prod", c=0, s=0)
    s["how"] = draw(st.sampled_from([0, 1, 2]))
    return s


def call(p, s, length=None, threshold=0, steps=None, ap=None, seed=None):
    """One RAV generation for the problem p, as positional, keyword or
    minimal call."""
    length = s["len"] if length is None else length
    t = s["t"] if threshold == 0 else threshold[0]
    steps = s["steps"] if steps is None else steps
    ap = s["ap"] if ap is None else ap
    if p.guard is not None:
        per = 1 if p.counts is None else max(1, sum(p.counts))
        p.guard.n = 0
        p.guard.limit = (4 * steps + length + 20) * per
    np.random.seed(s["s"] if seed is None else seed)
    kw = dict(stoq_append_probability=ap, max_step_count=steps)
    if p.counts is not None:
        return Verification.generate_layered_rav_sequence(
            p.d, p.layer(), length, t, **kw)
    if p.probs is not None or s.get("how") == 2:
        pr = p.probs
        if pr is not None and s.get("how") == 1:
            pr = np.array(pr)
        kw["unitary_primitive_probabilities"] = pr
    libs = list(p.libs)
    if s.get("how") == 1:
        libs = np.array(libs)
    return Verification.generate_rav_sequence(p.d, libs, length, t, **kw)


def per_unit(p):
    return 1 if p.counts is None else sum(p.counts)


def fresh(res, d):
    es = res.compiled_sequence.get_sequence_entries()
    ms = [matrix_of(e.get_full_unitary(d), d, "gate") for e in es]
    return es, ms


def contract(s, rec):
    p = Problem(s, Guard())
    start = s["len"] * per_unit(p)
    res = timed(lambda: call(p, s), whole=False)
    es, ms = fresh(res, p.d)
    prod = O.product(ms, p.d)
    cost = list(res.cost_by_step)
    gap = O.phase_gap(matrix_of(res.compiled_sequence.product(), p.d), prod)
    check(gap < 2e-9, "product differs from its gates by", gap)
    dist = O.dist(prod, np.eye(p.d))
    check(len(es) >= start, len(es), "gates, fewer than the", start,
          "of the random start")
    check(len(cost) <= s["steps"], len(cost), "steps of", s["steps"])
    check(len(es) - start <= len(cost) * per_unit(p), len(es) - start,
          "compiled gates after", len(cost), "steps")
    for c in cost:
        check(-1e-9 <= c <= 1 + 1e-9, "cost", c)
    if s["t"] == 0.0 or s["steps"] == 0:
        check(len(es) == start and cost == [], "threshold", s["t"],
              "budget", s["steps"], "gave", len(es), "gates instead of",
              start, "and", len(cost), "costs")
    else:
        t = s["t"]
        first = O.dist(O.product(ms[:start], p.d), np.eye(p.d))
        if cost:
            check(abs(cost[-1] - dist) < 1e-9, "last cost is", cost[-1],
                  "but the whole is at distance", dist)
        else:
            check(len(es) == start, "compiled gates without steps")
        for i, c in enumerate([first] + cost[:-1] if cost else []):
            check(expected(c, t) is not True, "went on after step", i,
                  "at distance", c, "threshold", t)
        if expected(dist, t) is False:
            check(len(cost) == s["steps"], "stopped after", len(cost), "of",
                  s["steps"], "steps at distance", dist, "threshold", t)
        if len(cost) < s["steps"]:
            lib = res.compiled_sequence.product()
            check(expected(lib.distance_from(lib.__class__.identity(p.d)),
                           t) is not False, "its own product is not close "
                  "to the identity at threshold", t)
    rec.note("n=%d" % p.n, "start=%d%s" % (min(9, start), "+" * (start > 24)),
             "compiled=%d" % min(9, len(es) - start),
             "t=%s" % (s["t"] if s["t"] in (None, 0, 1) else "between"))
    rec.hard(start > 0 and len(cost) >= 2)


def corners(s, rec):
    """The calls without a compiled part, and the random start on its own
    under one random state."""
    p = Problem(s, Guard())
    start = s["len"] * per_unit(p)
    for what, kw in (("threshold 0", dict(threshold=[0.0])),
                     ("budget 0", dict(steps=0)),
                     ("integer threshold 0", dict(threshold=[0]))):
        res = call(p, s, **kw)
        keys = [gate_key(e, p.d) for e in fresh(res, p.d)[0]]
        check(len(keys) == start, what, "gives", len(keys), "gates,",
              start, "requested")
        check(list(res.cost_by_step) == [], what, "gives a cost trace")
    # never appending leaves the random start
    res = call(p, s, ap=0.0, threshold=[None])
    keys = [gate_key(e, p.d) for e in fresh(res, p.d)[0]]
    check(len(keys) == start, "append probability 0 gives", len(keys),
          "gates,", start, "requested")
    # none means exact
    a, b = call(p, s, threshold=[None]), call(p, s, threshold=[1.0])
    check([gate_key(e, p.d) for e in fresh(a, p.d)[0]]
          == [gate_key(e, p.d) for e in fresh(b, p.d)[0]]
          and list(a.cost_by_step) == list(b.cost_by_step),
          "threshold None and 1.0 differ")
    # a threshold just above 0 and an empty start: nothing to invert
    res = call(p, s, length=0, threshold=[1.0])
    check(len(fresh(res, p.d)[0]) == 0 and list(res.cost_by_step) == [],
          "an empty random start gives gates")
    rec.hard(start > 0)


@st.composite
def start_specs(draw, lay):
    s = draw(gate_draws())
    s["lay"] = lay
    s["len"] = draw(st.sampled_from([3, 1, 20, 60, 7, 12, 35, 2, 90]))
    s["steps"] = draw(st.sampled_from([0, 1, 2]))
    s["t"] = draw(st.sampled_from([1.0, None, 0.99, 0.0]))
    if lay:
        k = len(s["ps"])
        s["ps"] = [dict(p, a=p["a"] or None) for p in s["ps"]]
        s["w"] = None
        s["c"] = [draw(st.sampled_from([1, 2, 1, 0])) for _ in range(k)]
        if sum(s["c"]) == 0 or draw(st.integers(0, 2)) == 0:
            s["c"][draw(st.integers(0, k - 1))] = draw(
                st.sampled_from([1, 4, 7, 10]))
        s["len"] = min(s["len"], 36)
        if sum(s["c"]) > 6:
            s["len"] = min(s["len"], draw(st.sampled_from([1, 2, 6])))
    return s


def start(s, rec):
    """The random start follows the laws of random gates (layers), also
    when a compiled part follows it, and its gates do not repeat."""
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    d = 2 ** s["n"]
    per = sum(s["c"]) if s["lay"] else 1
    k = s["len"] * per
    calls = max(2, (600 if per > 6 else 240) // k)
    np.random.seed(s["s"])
    es = []
    for _ in range(calls):
        if s["lay"]:
            counts = dict(zip([p.lib for p in prims], s["c"]))
            res = Verification.generate_layered_rav_sequence(
                d, counts, s["len"], s["t"], max_step_count=s["steps"])
        else:
            res = Verification.generate_rav_sequence(
                d, [p.lib for p in prims], s["len"], s["t"],
                max_step_count=s["steps"],
                unitary_primitive_probabilities=probs(s["w"]))
        got = res.compiled_sequence.get_sequence_entries()
        check(len(got) >= k, "only", len(got), "gates, random start", k)
        es += got[:k]
    if not s["lay"]:
        rec.hard(judge(s, prims, es, "random start"))
    else:
        items = [i for i, c in enumerate(s["c"]) for _ in range(c)]
        names = {p.name: i for i, p in enumerate(prims)}
        seq = [names.get(e.get_full_unitary(d).get_operation_name())
               for e in es]
        rows = [tuple(seq[i:i + per]) for i in range(0, len(seq), per)]
        for r in rows:
            check(sorted(map(str, r)) == sorted(map(str, items)),
                  "random layer", r, "of primitives", items)
        perms = set(itertools.permutations(items if per < 6 else []))
        if 1 < len(perms) <= 24:
            for x in perms:
                stats.binom(rows.count(x), len(rows), 1 / len(perms),
                            "layer arrangement %s" % (x,))
            stats.binom(sum(a == b for a, b in zip(rows[::2], rows[1::2])),
                        len(rows) // 2, 1 / len(perms),
                        "the same arrangement twice in a row")
        # where each gate of a layer is placed
        qp = laws(s, prims)[1]
        qs = [qubits_of(e, "gate of a random layer")[0] for e in es]
        for j in range(per):
            for q in range(s["n"]):
                stats.binom(qs[j::per].count(q), len(rows), sum(
                    c / per * pr for c, x in zip(s["c"], qp)
                    for at, pr in x.items() if at[0] == q),
                    "gate %d of a random layer on qubit %d" % (j, q))
        for i, p in enumerate(prims):
            if s["c"][i]:
                judge(dict(s, w=None), prims,
                      [e for e, j in zip(es, seq) if j == i],
                      "gate of a random layer",
                      [float(q is p) for q in prims])
        rec.hard()
    rec.note("length=%d" % s["len"], "steps=%d" % s["steps"])


@st.composite
def word_specs(draw, lay):
    s = draw(letter_specs(100, rate=st.just(0.1), ap=st.one_of(
        st.sampled_from([0.5, 0.7, 0.9, 1.0, 0.3]), fl(0.35, 0.95))))
    s["close"] = None
    s["lay"] = lay
    k = len(s["g"])
    if lay and "c" not in s:
        s["c"] = [1] * k
    if not lay and "w" not in s:
        s["w"] = None
    s["len"] = draw(st.integers(1, 6))
    s["runs"] = draw(st.sampled_from([1, 3, 6]))
    s["steps"] = draw(st.sampled_from([10, 100, 40]))
    return s


def decoded(s, rec):
    """Every state of the compilation of the inverse, decoded from the cost
    trace: it starts empty after exactly the requested random gates, edits
    as the append and primitive probabilities demand, and the result is the
    random start followed by what the steps lead to."""
    s = dict(s, r=0.1)
    w = Words(s)
    per = sum(s["c"]) if s["lay"] else 1
    tally = Tally()
    full = 0
    for i in range(s["runs"]):
        np.random.seed((s["s"] + i) % 2 ** 32)
        kw = dict(stoq_append_probability=s["ap"],
                  max_step_count=s["steps"])
        if s["lay"]:
            res = Verification.generate_layered_rav_sequence(
                w.d, dict(zip(w.prims, s["c"])), s["len"], None, **kw)
        else:
            res = Verification.generate_rav_sequence(
                w.d, list(w.prims), s["len"], None,
                unitary_primitive_probabilities=w.probs, **kw)
        names = w.final(res)
        mats = [w.lt.mats[w.names.index(x)] for x in names]
        k = s["len"] * per
        check(len(names) >= k, "only", len(names), "gates")
        start = O.product(mats[:k], w.d)
        goal = start.conj().T
        cost = list(res.cost_by_step)
        word, n = (), 0
        for before, dist, moves, word in decode(w.lt, goal, cost):
            n += 1
            tally.add(before, dist, moves, word, w.odds(
                dist, moves, before, beta_at(s, w.d, n)))
        if n == len(cost):
            full += 1
            want = [w.names[j] for j in w.lt.spelled(word)]
            check(names[k:] == want, "the steps lead to", want[:9],
                  "but after the random start come", names[k:][:9])
    tally.verdict("compilation of the inverse")
    rec.note("decoded %d of %d" % (full, s["runs"]))
    rec.hard(tally.steps >= 20)
