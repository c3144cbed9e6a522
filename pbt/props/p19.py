import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..gen import fl, seeds, herm
from ..ham import (hams, Ham, Hamiltonian, HamiltonianTerm, times,
                   step_numbers, gate_matrices)

RULE = ("Hamiltonians of 1..5 terms (weights over two orders of magnitude, "
        "either sign, equal and opposite terms) on 1..3 qubits, times of "
        "either sign, repetition counts; non-trivial: at least two terms "
        "and two repetitions")


@st.composite
def specs(draw):
    s = draw(hams(lo=0.05, spread=True, max_terms=draw(
        st.sampled_from([5, 5, 14]))))
    s["t"] = draw(times)
    s["k"] = draw(st.one_of(step_numbers, st.integers(1, 60)))
    s["s"] = draw(seeds)
    return s


def structure(s, rec):
    h, t, k = Ham(s), s["t"], s["k"]
    np.random.seed(s["s"])
    seq = h.lib.get_qdrift_sequence(t, k)
    ms, es, prod = gate_matrices(seq, h.n, "QDRIFT sequence")
    check(len(ms) == k, "QDRIFT of", k, "repetitions has", len(ms), "gates")
    tau = h.lam * t / k
    steps = [O.evolve(m / c, tau) for m, c in zip(h.ms, h.cs)]
    used = set()
    for i, (m, e) in enumerate(zip(ms, es)):
        gaps = [O.phase_gap(m, u) for u in steps]
        j = int(np.argmin(gaps))
        check(gaps[j] < h.scale(tau), "gate", i, "is off every term for "
              "time lambda t/N by", gaps)
        used.add(j)
        p = e.get_full_unitary(h.d).get_parameter_value("t")
        check(p is not None and abs(p[0] - tau) <= 1e-9 * abs(tau), "gate",
              i, "records time", p, "expected", tau)
        name = e.get_full_unitary(h.d).get_operation_name()
        named = [j for j in range(len(steps)) if name == "H%d λ/N" % j]
        check(named and gaps[named[0]] < h.scale(tau), "gate", i,
              "is named", name, "but is no step of this term")
    if len(h.ms) == 1:
        gap = O.phase_gap(prod, h.exact(t))
        check(gap < 2e-9 + 1e-11 * abs(t) * h.lam,
              "single-term QDRIFT is off the evolution by", gap)
    rec.note("terms=%d" % len(h.ms), "used=%d" % len(used))
    rec.hard(len(h.ms) > 1 and k > 1)


@st.composite
def law_specs(draw):
    n = draw(st.sampled_from([1, 2]))
    k = draw(st.integers(2, 5) | st.sampled_from([8, 12]))
    return dict(n=n, s=draw(seeds), c=[
        draw(st.sampled_from([1.0, 2.0, 0.1, 5.0, -1.0, -3.0, 0.02, 150.0])
             | fl(0.05, 4))
        for _ in range(k)], calls=draw(st.sampled_from([1, 128, 40, 64, 128])), long=draw(
            st.sampled_from([640, 640, 1500])),
        t=draw(st.sampled_from([1.0, -1.0, 0.0, 7.0])),
        same=draw(st.sampled_from([0, 0, 1, 2])))


def law(s, rec):
    """Terms are drawn independently with probability coefficient/lambda."""
    k = len(s["c"])
    # the last terms may be multiples of the first
    hs = [herm(dict(k="dense", n=s["n"], c=c, s=100 + (
        0 if i >= k - s["same"] else i))) for i, c in enumerate(s["c"])]
    ham = Hamiltonian([HamiltonianTerm(m) for m in hs])
    lam = sum(abs(c) for c in s["c"])
    n = s["long"] // s["calls"]
    # a step long enough to tell the terms apart
    tau = 0.4 if s["t"] == 0 else 0.4 * np.sign(s["t"])
    u = [O.evolve(m / abs(c), tau) for m, c in zip(hs, s["c"])]
    np.random.seed(s["s"])
    ids = []
    for _ in range(s["calls"]):
        seq = ham.get_qdrift_sequence(tau * n / lam, n)
        for e in seq.get_sequence_entries():
            m = e.get_full_unitary(2 ** s["n"]).get_matrix()
            gaps = [O.phase_gap(m, x) for x in u]
            name = e.get_full_unitary(2 ** s["n"]).get_operation_name()
            named = [j for j in range(k) if name == "H%d λ/N" % j]
            check(named and gaps[named[0]] < 1e-9, "gate named", name,
                  "is off the terms by", gaps)
            ids.append(named[0])
    pr = [abs(c) / lam for c in s["c"]]
    for i in range(k):
        stats.binom(ids.count(i), len(ids), pr[i], "term %d" % i)
    stats.binom(sum(a == b for a, b in zip(ids[::2], ids[1::2])),
                len(ids) // 2, sum(p * p for p in pr),
                "the same term twice in a row")
    stats.lags(ids, sum(p * p for p in pr), "term")
    for size in (n, 16) if n < 640 else (8, 64):
        for i in range(k):
            stats.dispersion([ids[a:a + size].count(i) for a in range(
                0, len(ids) - size + 1, size)], size, pr[i],
                "counts of term %d" % i)
    if s["calls"] > 1:
        # each position of the sequence alone, over many sequences
        for j in range(n):
            for i in range(k):
                stats.binom(ids[j::n].count(i), s["calls"], pr[i],
                            "term %d as gate %d" % (i, j))
    rec.note("calls=%d" % s["calls"], "terms=%d" % k)
    rec.hard()


def deep(s, rec):
    """Terms drawn often enough to see a slight preference."""
    k = len(s["c"])
    ham = Hamiltonian([HamiltonianTerm(c * np.diag([1.0, -1.0]))
                       for c in s["c"]])
    n = 12000 // s["calls"]
    lam = sum(s["c"])
    np.random.seed(s["s"])
    ids = []
    for _ in range(s["calls"]):
        for e in ham.get_qdrift_sequence(
                0.2 * n / lam, n).get_sequence_entries():
            name = e.get_full_unitary(2).get_operation_name()
            named = [j for j in range(k) if name == "H%d λ/N" % j]
            check(named, "gate named", name)
            ids.append(named[0])
    pr = [c / lam for c in s["c"]]
    two = list(zip(ids[::2], ids[1::2]))
    stats.multinomial([ids.count(i) for i in range(k)], pr, "terms")
    stats.multinomial([two.count((i, j)) for i in range(k) for j in
                       range(k)], [a * b for a in pr for b in pr],
                      "pairs of terms")
    for i in range(k):
        stats.binom(ids.count(i), len(ids), pr[i], "term %d" % i)
        for j in range(k):
            stats.binom(two.count((i, j)), len(two), pr[i] * pr[j],
                        "terms %d and %d in a row" % (i, j))
    rec.note("deep", "terms=%d" % k)
    rec.hard()


SUBS = [
    Sub("deep", st.fixed_dictionaries(dict(
        s=seeds, c=st.lists(st.sampled_from([1.0, 2.0, 0.1, 0.5]) | fl(
            0.05, 4), min_size=2, max_size=4), calls=st.sampled_from(
                [1, 60, 600]))), deep, 3),
    Sub("structure", specs(), structure, 450),
    Sub("law", law_specs(), law, 30),
]
