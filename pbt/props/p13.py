import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..comp import letter_specs, Words, decode, check_trace, Compiler
from ..gen import (fl, seeds, mspecs, mat, Unitary, UnitaryPrimitive,
                   UnitaryDefinitions)

RULE = ("runs whose every state is decoded from the cost trace, compared "
        "with the exact step probabilities of the stated rule; non-trivial: "
        "at least 20 steps whose uphill moves have acceptance between 1e-6 "
        "and 1 - 1e-6, or a deterministic descent of at least three steps")


class Tally:
    def __init__(self):
        self.n = {k: [0, 0.0, 0.0] for k in ("up", "down", "stay")}
        self.hard = 0
        self.steps = 0

    def add(self, word, dist, moves, after, odds):
        if after == word:
            kind = "stay"
        else:
            y = next(y for _, _, w, _, y in moves if w == after)
            kind = "up" if y > dist else "down"
        self.steps += 1
        for k, p in zip(("up", "down", "stay"), odds):
            p = min(1.0, max(0.0, p))
            t = self.n[k]
            t[0] += kind == k
            t[1] += p
            t[2] += p * (1 - p)
            if p < 1e-13:
                check(kind != k, "a step of probability", p, "happened:", k,
                      "(the others:", odds, ")")
        self.hard += 1e-6 < odds[0] and 1e-6 < odds[2]

    def verdict(self, what):
        names = dict(up="accepting an uphill change",
                     down="accepting a non-increasing change",
                     stay="rejecting or changing nothing")
        for k, (c, m, v) in self.n.items():
            stats.bernstein(c, m, v, what + ": " + names[k])


def beta_at(s, d, k):
    return min(k * s["r"], 4.0 ** d)


def long_run(s, rec):
    w = Words(s)
    if s["warm"] is not None:
        # an earlier compilation with the same compiler has no influence
        w.run(s["warm"], s["s"] ^ 1)
    res = w.run(s["steps"], s["s"])
    cost = list(res.cost_by_step)
    check_trace(res, w.target_m, w.d, None, s["steps"])
    tally = Tally()
    k = 0
    for word, dist, moves, after in decode(w.lt, w.target_m, cost):
        k += 1
        tally.add(word, dist, moves, after, w.odds(
            dist, moves, word, beta_at(s, w.d, k)))
    tally.verdict("run of %d steps" % k)
    rec.note("layered" if s["lay"] else "plain", "d=%d" % w.d,
             "warm" if s["warm"] else "fresh",
             "decoded" if k == len(cost) else "partly decoded")
    rec.hard(tally.hard >= 20)


@st.composite
def long_specs(draw):
    s = draw(letter_specs(220))
    s["warm"] = draw(st.sampled_from([None, 60, None, 25]))
    return s


def early(s, rec):
    """The first steps of many runs: beta starts at the annealing rate,
    with a new compiler or one that was used before."""
    w = Words(s)
    tally = Tally()
    for i in range(s["runs"]):
        c = None
        if s["fresh"]:
            c = Compiler(w.d, list(w.prims), w.probs,
                         append_probability=s["ap"], annealing_rate=s["r"])
        res = w.run(s["steps"], (s["s"] + i) % 2 ** 32, c)
        k = 0
        for word, dist, moves, after in decode(
                w.lt, w.target_m, list(res.cost_by_step)):
            k += 1
            tally.add(word, dist, moves, after, w.odds(
                dist, moves, word, beta_at(s, w.d, k)))
    tally.verdict("%d runs of %d steps" % (s["runs"], s["steps"]))
    rec.note("layered" if s["lay"] else "plain",
             "fresh" if s["fresh"] else "reused")
    rec.hard(tally.hard >= 20)


@st.composite
def early_specs(draw):
    s = draw(letter_specs(
        draw(st.integers(1, 4)), ap=st.sampled_from([0.9, 0.5, 0.7, 1.0]),
        rate=st.one_of(st.sampled_from([3.0, 10.0, 1.0]), fl(0.5, 20))))
    s["runs"] = 120
    s["fresh"] = draw(st.booleans())
    if s["close"] is None:
        s["close"] = 0.1
    return s


@st.composite
def descent_specs(draw):
    return dict(M=draw(st.integers(3, 14)), lay=draw(st.booleans()),
                r=draw(st.sampled_from([0.1, 0.0, 5.0, 1e6, 0.5])),
                s=draw(seeds), base=draw(mspecs(2)), n=draw(
                    st.sampled_from([1, 2, 3])))


def descent(s, rec):
    """Appending only, one gate, target its M-th power: every step goes
    downhill, so that the result is forced."""
    M, n = s["M"], s["n"]
    b = mat(s["base"])
    g = b @ O.rot(O.Z, math.pi / (M + 1)) @ b.conj().T
    p = UnitaryPrimitive(Unitary(2, g, "G"), [[n - 1]])
    target = Unitary(2 ** n, O.embed(np.linalg.matrix_power(g, M), [n - 1],
                                     n))
    c = Compiler(2 ** n, [p], append_probability=1.0, annealing_rate=s["r"])
    np.random.seed(s["s"])
    res = (c.compile_layered(target, {p: 1}, None, 4 * M) if s["lay"]
           else c.compile(target, None, 4 * M))
    check(len(res.cost_by_step) == M
          and res.compiled_sequence.get_length() == M,
          "a descent of", M, "forced steps took", len(res.cost_by_step),
          "steps and", res.compiled_sequence.get_length(), "gates")
    want = [1 - abs(math.cos((M - k) * math.pi / (M + 1) / 2))
            for k in range(1, M + 1)]
    for k, (a, x) in enumerate(zip(res.cost_by_step, want)):
        check(abs(a - x) < 1e-9, "cost", k + 1, "is", a, "expected", x)
    rec.note("layered" if s["lay"] else "plain")
    rec.hard(M >= 3)


def flat(s, rec):
    """Gates that do not change the distance are always accepted."""
    n = s["n"]
    d = 2 ** n
    gate = {"identity": Unitary.identity(2), "rz": UnitaryDefinitions.rz(
        2 * math.pi), "rx": UnitaryDefinitions.rx(4 * math.pi)}[s["g"]]
    p = UnitaryPrimitive(gate)
    target = Unitary(d, mat(s["m"]))
    if target.close_to(Unitary(d)):
        return
    c = Compiler(d, [p], append_probability=1.0, annealing_rate=s["r"])
    np.random.seed(s["s"])
    k = s["steps"]
    res = (c.compile_layered(target, {p: 2}, None, k) if s["lay"]
           else c.compile(target, None, k))
    check(res.compiled_sequence.get_length() == k * (2 if s["lay"] else 1),
          k, "changes that keep the distance gave",
          res.compiled_sequence.get_length(), "gates")
    rec.hard(k >= 3)


@st.composite
def slope_specs(draw):
    n = draw(st.sampled_from([2, 1, 3]))
    return dict(n=n, s=draw(seeds), base=draw(mspecs(2)), lay=draw(
        st.sampled_from([False, False, True])),
        a=draw(st.sampled_from([0.5, 1.0, 2.0])),
        grow=draw(st.sampled_from(["at once", "soon", "late", "never"])),
        ap=draw(st.sampled_from([0.5, 0.5, 0.45])),
        steps=draw(st.sampled_from([500, 700])))


def slope(s, rec):
    """One gate, a small rotation away from the target: every addition
    raises the distance by about a / (the largest beta reached), so that
    acceptance at every beta up to the cap of 4^d is measured."""
    n, d, T = s["n"], 2 ** s["n"], s["steps"]
    cap = 4.0 ** d
    rate = {"at once": 10 * cap, "soon": 8 * cap / T, "late": 2 * cap / T,
            "never": 0.5 * cap / T}[s["grow"]]
    beta = [min(k * rate, cap) for k in range(1, T + 1)]
    per = 2 if s["lay"] else 1
    th = 0.8
    eps = s["a"] / beta[-1] / (math.sin(th) / 2) / per
    b = mat(s["base"])
    g = b @ O.rot(O.Z, eps) @ b.conj().T
    p = UnitaryPrimitive(Unitary(2, g, "G"), [[n - 1]])
    target = Unitary(d, O.embed(
        b @ O.rot(O.Z, -2 * th) @ b.conj().T, [n - 1], n))
    c = Compiler(d, [p], append_probability=s["ap"], annealing_rate=rate)
    np.random.seed(s["s"])
    res = (c.compile_layered(target, {p: per}, None, T) if s["lay"]
           else c.compile(target, None, T))
    cost = list(res.cost_by_step)
    check(len(cost) == T, "took", len(cost), "of", T, "steps")
    tally = Tally()
    k = 0

    def f(k):
        # the rise over the start, without cancellation
        x = k * per * eps / 2
        return 2 * math.sin(th + x / 2) * math.sin(x / 2)

    f0 = 1 - math.cos(th)
    for i, (x, bt) in enumerate(zip(cost, beta)):
        y, up = f(k), f(k + 1)
        now = x - f0
        tol = 0.3 * (up - y)
        acc = math.exp(-bt * (up - y))
        kind = ("stay" if abs(now - y) < tol else
                "up" if abs(now - up) < tol else
                "down" if k and abs(now - f(k - 1)) < tol else None)
        if k * per * eps / 2 > 0.6:
            # too far out: the rise is no longer nearly constant
            k = None
            break
        check(kind is not None, "step", i + 1, "changed the distance from",
              f0 + y, "to", x, ", not by one gate; additions raise it by",
              up - y)
        odds = (s["ap"] * acc, 1 - s["ap"] if k else 0.0,
                s["ap"] * (1 - acc) + (0 if k else 1 - s["ap"]))
        for name, q in zip(("up", "down", "stay"), odds):
            t = tally.n[name]
            t[0] += kind == name
            t[1] += q
            t[2] += q * (1 - q)
        k += (kind == "up") - (kind == "down")
    if k is not None:
        check(res.compiled_sequence.get_length() == k * per, "sequence of",
              res.compiled_sequence.get_length(), "gates, decoded", k * per)
    tally.verdict("%d steps, beta up to %g" % (T, beta[-1]))
    rec.note("layered" if s["lay"] else "plain", "d=%d" % d, s["grow"])
    rec.hard()


@st.composite
def rare_specs(draw):
    return dict(n=draw(st.sampled_from([1, 1, 2])), s=draw(seeds),
                a=draw(st.sampled_from([4e-3, 9e-4, 3e-3, 4e-3])),
                base=draw(mspecs(2)), lay=draw(st.booleans()),
                r=draw(st.sampled_from([1.0, 1e3])))


def rare(s, rec):
    """Changes that are accepted once in a thousand times: at the highest
    beta, X on the empty sequence raises the distance to the target by D
    and on X lowers it by D."""
    n, d = s["n"], 2 ** s["n"]
    cap = 4.0 ** d
    rise = -math.log(s["a"]) / cap
    b = mat(s["base"])
    g = b @ O.X @ b.conj().T
    p = UnitaryPrimitive(Unitary(2, g, "G"), [[n - 1]])
    target = Unitary(d, O.embed(b @ O.rot(O.Z, 2 * math.acos(
        rise)) @ b.conj().T, [n - 1], n))
    low = 1 - rise
    need = int(26.5 / s["a"])
    c = Compiler(d, [p], append_probability=1.0,
                 annealing_rate=s["r"] * cap)
    np.random.seed(s["s"])
    up = tried = 0
    while tried < need:
        res = (c.compile_layered(target, {p: 1}, None, 200) if s["lay"]
               else c.compile(target, None, 200))
        at = low
        for x in res.cost_by_step:
            y = 1.0 if abs(x - 1) < rise / 100 else low
            check(abs(x - y) < rise / 100, "cost", x, "is neither", low,
                  "nor 1")
            if at == low and tried < need:
                tried += 1
                up += y == 1.0
            check(at == low or y == low, "an improvement was rejected")
            at = y
        check(len(res.cost_by_step) == 200, "stopped early")
    stats.binom(up, tried, s["a"], "a change of acceptance probability %g"
                % s["a"])
    rec.note("layered" if s["lay"] else "plain", "d=%d" % d)
    rec.hard()


@st.composite
def flat_specs(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return dict(n=n, g=draw(st.sampled_from(["identity", "rz", "rx"])),
                m=draw(mspecs(2 ** n)), r=draw(st.sampled_from(
                    [0.1, 0.0, 10.0, 1e6])), s=draw(seeds),
                steps=draw(st.one_of(st.integers(3, 20), st.just(120))),
                lay=draw(st.booleans()))


SUBS = [
    Sub("long_run", long_specs(), long_run, 70),
    Sub("early", early_specs(), early, 24),
    Sub("slope", slope_specs(), slope, 60),
    Sub("descent", descent_specs(), descent, 100),
    Sub("flat", flat_specs(), flat, 60),
    Sub("rare", rare_specs(), rare, 8),
]
