import collections
import itertools
import random
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..gen import fl, seeds, herm, hspecs
from ..ham import (hams, Ham, Hamiltonian, HamiltonianTerm, times,
                   step_numbers, gate_matrices)

RULE = ("Hamiltonians of 1..14 terms (also equal, opposite and commuting "
        "ones) on 1..3 qubits, times of either sign, step counts and both "
        "orders; non-trivial: at least two terms and two steps")


@st.composite
def specs(draw):
    s = draw(hams(crowd=True))
    s["t"] = draw(times)
    s["k"] = draw(step_numbers)
    s["rand"] = draw(st.booleans())
    s["s"] = draw(seeds)
    return s


def assign(ms, steps, tol):
    """Whether the gates ms are the given step evolutions in some order."""
    left = list(range(len(steps)))
    # distinct terms can have equal evolutions: match greedily on the
    # closest, which is exact because equal ones are interchangeable
    for m in ms:
        gaps = [(O.phase_gap(m, steps[i]), i) for i in left]
        g, i = min(gaps)
        if g > tol:
            return None
        left.remove(i)
    return True


def structure(s, rec):
    h, t, k = Ham(s), s["t"], s["k"]
    random.seed(s["s"])
    seq = (h.lib.get_trotter_sequence(t, k, randomize=True) if s["rand"]
           else h.lib.get_trotter_sequence(t, k))
    ms, es, prod = gate_matrices(seq, h.n, "Trotter sequence")
    L = len(h.ms)
    check(len(ms) == k * L, "Trotter sequence of", k, "steps and", L,
          "terms has", len(ms), "gates")
    steps = [O.evolve(m, t / k) for m in h.ms]
    tol = h.scale(t)
    for b in range(k):
        group = ms[b * L:b * L + L]
        if s["rand"]:
            check(assign(group, steps, tol), "step", b, "does not hold "
                  "every term once for time t/n")
        else:
            for i, (m, u) in enumerate(zip(group, steps)):
                gap = O.phase_gap(m, u)
                check(gap < tol, "gate", i, "of step", b, "is off term", i,
                      "for t/n by", gap)
    for i, e in enumerate(es):
        p = e.get_full_unitary(h.d).get_parameter_value("t")
        check(p is not None and abs(p[0] - t / k) <= 1e-12 * abs(t),
              "gate", i, "records time", p, "expected", t / k)
        # the name tells the term
        name = e.get_full_unitary(h.d).get_operation_name()
        named = [j for j in range(L) if name == "H%d" % j]
        check(named and O.phase_gap(ms[i], steps[named[0]]) < tol,
              "gate", i, "is named", name, "but not this term's evolution")
        if not s["rand"]:
            check(named[0] == i % L, "gate", i, "is named", name)
    bound = t * t / (2 * k) * sum(
        O.opnorm(a @ b - b @ a)
        for a, b in itertools.combinations(h.ms, 2))
    gap = O.closest_phase_opnorm(prod, h.exact(t))
    check(gap <= bound + 2e-9 + 1e-11 * abs(t) * h.lam,
          "Trotter error", gap, "exceeds the bound", bound)
    rec.note("randomized" if s["rand"] else "in order", "terms=%d" % L,
             "exact" if bound < 1e-9 else
             "bound<0.5" if bound < 0.5 else "bound large")
    rec.hard(L > 1 and k > 1)


def converge(s, rec):
    """Many steps reach the evolution itself."""
    h, t = Ham(s), s["t"]
    comm = sum(O.opnorm(a @ b - b @ a)
               for a, b in itertools.combinations(h.ms, 2))
    k = int(min(400, max(2, t * t * comm / 0.1)))
    random.seed(s["s"])
    seq = h.lib.get_trotter_sequence(t, k, randomize=s["rand"])
    d = O.dist(gate_matrices(seq, h.n, "Trotter sequence")[2], h.exact(t))
    bound = t * t * comm / (2 * k)
    check(1 - d >= 1 - bound ** 2 / 2 - 1e-7, "overlap", 1 - d, "after", k,
          "steps, bound", bound)
    lib = h.lib.get_time_evolution_operator(t).distance_from(seq.product())
    check(abs(lib - d) < 1e-6, "distance", lib, "but recomputed", d)
    rec.note("steps<%d" % 10 ** len(str(k)))
    rec.hard(len(h.ms) > 1 and bound < 0.2)


@st.composite
def converge_specs(draw):
    s = draw(hams(sizes=(1, 2), max_terms=4, hi=1.5))
    s["t"] = draw(fl(-1.5, 1.5))
    s["rand"] = draw(st.booleans())
    s["s"] = draw(seeds)
    return s


@st.composite
def order_specs(draw):
    n = draw(st.sampled_from([1, 2]))
    k = draw(st.sampled_from([2, 3, 3, 4]))
    return dict(n=n, k=k, s=draw(seeds), calls=draw(st.sampled_from(
        [1, 60, 10, 1, 150])))


def order(s, rec):
    """Randomized orders: uniform, and independent from step to step."""
    rs = np.random.RandomState(7)
    hs = []
    for i in range(s["k"]):
        hs.append(herm(dict(k="dense", n=s["n"], c=1.0 + i / 4,
                            s=int(rs.randint(10 ** 6)))))
    ham = Hamiltonian([HamiltonianTerm(m) for m in hs])
    steps = 300 // s["calls"]
    u = [O.evolve(m, 0.3) for m in hs]
    random.seed(s["s"])
    ids = []
    for _ in range(s["calls"]):
        seq = ham.get_trotter_sequence(0.3 * steps, steps, randomize=True)
        for e in seq.get_sequence_entries():
            m = e.get_full_unitary(2 ** s["n"]).get_matrix()
            ids.append(int(np.argmin([O.phase_gap(m, x) for x in u])))
    k = s["k"]
    rows = [tuple(ids[i:i + k]) for i in range(0, len(ids), k)]
    perms = list(itertools.permutations(range(k)))
    seen = collections.Counter(rows)
    check(set(seen) <= set(perms), "orders", set(seen) - set(perms))
    for p in perms:
        stats.binom(seen[p], len(rows), 1 / len(perms), "order %s" % (p,))
    stats.binom(sum(a == b for a, b in zip(rows[::2], rows[1::2])),
                len(rows) // 2, 1 / len(perms), "the same order twice")
    stats.lags(rows, 1 / len(perms), "order")
    # consecutive orders are independent, not one shuffle of another kind
    for i in range(k):
        both = sum(a[0] == i and b[0] == i
                   for a, b in zip(rows[::2], rows[1::2]))
        stats.binom(both, len(rows) // 2, 1 / k ** 2,
                    "term %d first in two consecutive steps" % i)
    for i in range(k):
        stats.dispersion([sum(r[0] == i for r in rows[a:a + 10])
                          for a in range(0, len(rows) - 9, 10)], 10, 1 / k,
                         "counts of term %d being first" % i)
    for lag in (1, 2, 3):
        pairs = [(a, b) for j in range(0, len(rows) - lag, 2 * lag)
                 for a, b in zip(rows[j:j + lag], rows[j + lag:j + 2 * lag])]
        stats.binom(sum(a == b for a, b in pairs), len(pairs),
                    1 / len(perms), "the same order %d steps apart" % lag)
        stats.binom(sum(a == b[::-1] for a, b in pairs), len(pairs),
                    1 / len(perms), "the reverse order %d steps apart" % lag)
    if s["calls"] > 10:
        # each step of the sequence alone, over many sequences
        for j in range(steps):
            at = rows[j::steps]
            for p in perms:
                stats.binom(at.count(p), len(at), 1 / len(perms),
                            "order %s in step %d" % (p, j))
            for j2 in range(j):
                stats.binom(sum(a == b for a, b in zip(rows[j2::steps], at)),
                            len(at), 1 / len(perms),
                            "the same order in steps %d and %d" % (j2, j))
    rec.note("calls=%d" % s["calls"], "terms=%d" % k)
    rec.hard()


def deep(s, rec):
    """Randomized orders of few terms, often enough to see a slight
    preference."""
    k, steps = s["k"], 9000 // s["calls"]
    ham = Hamiltonian([HamiltonianTerm((1 + i) * np.diag([1.0, -1.0]))
                       for i in range(k)])
    random.seed(s["s"])
    ids = []
    for _ in range(s["calls"]):
        for e in ham.get_trotter_sequence(
                0.01 * steps, steps, randomize=True).get_sequence_entries():
            if len(ids) % k == k - 1:
                # the last of a step: the one missing (P18.many and
                # P18.structure check that every step has all)
                ids.append(k * (k - 1) // 2 - sum(ids[1 - k:]))
                continue
            m = e.get_full_unitary(2).get_matrix()
            ids.append(int(round(np.angle(m[0, 0] / m[1, 1]) / 0.02)) - 1)
    rows = [tuple(ids[i:i + k]) for i in range(0, len(ids), k)]
    perms = list(itertools.permutations(range(k)))
    seen = collections.Counter(rows)
    check(set(seen) <= set(perms), "orders", set(seen) - set(perms))
    for p in perms:
        stats.binom(seen[p], len(rows), 1 / len(perms), "order %s" % (p,))
    stats.multinomial([seen[p] for p in perms],
                      [1 / len(perms)] * len(perms), "orders %s" % perms)
    two = list(zip(rows[::2], rows[1::2]))
    for p in perms:
        for q in perms:
            stats.binom(two.count((p, q)), len(two), 1 / len(perms) ** 2,
                        "orders %s and %s in a row" % (p, q))
    rec.note("deep", "terms=%d" % k)
    rec.hard()


@st.composite
def many_specs(draw):
    return dict(k=draw(st.integers(5, 12)), s=draw(seeds))


def many(s, rec):
    """Randomized orders of more terms than orders can be told apart."""
    k, steps = s["k"], 400
    ham = Hamiltonian([HamiltonianTerm((1 + i) * np.diag([1.0, -1.0]))
                       for i in range(k)])
    random.seed(s["s"])
    ids = []
    for e in ham.get_trotter_sequence(
            0.01 * steps, steps, randomize=True).get_sequence_entries():
        m = e.get_full_unitary(2).get_matrix()
        ids.append(int(round(np.angle(m[0, 0] / m[1, 1]) / 0.02)) - 1)
    rows = [ids[i:i + k] for i in range(0, len(ids), k)]
    for r in rows:
        check(sorted(r) == list(range(k)), "step with terms", r, "of", k)
    at = [{x: j for j, x in enumerate(r)} for r in rows]
    n = len(rows)
    for i in range(k):
        for j in range(k):
            stats.binom(sum(a[i] == j for a in at), n, 1 / k,
                        "term %d as number %d of the step" % (i, j))
            if i != j:
                stats.binom(sum(a[j] == a[i] + 1 for a in at), n, 1 / k,
                            "term %d right after term %d" % (j, i))
            if i < j:
                stats.binom(sum(a[i] < a[j] for a in at), n, 0.5,
                            "term %d before term %d" % (i, j))
        stats.lags([a[i] for a in at], 1 / k, "place of term %d" % i)
    rec.note("terms=%d" % k)
    rec.hard()


SUBS = [
    Sub("deep", st.fixed_dictionaries(dict(
        s=seeds, k=st.sampled_from([3, 3, 2]),
        calls=st.sampled_from([1, 60, 900]))), deep, 3),
    Sub("many", many_specs(), many, 8),
    Sub("structure", specs(), structure, 500),
    Sub("converge", converge_specs(), converge, 60),
    Sub("order", order_specs(), order, 24),
]
