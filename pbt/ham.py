"""Generated Hamiltonians shared by the Hamiltonian properties."""
import numpy as np
from hypothesis import strategies as st

from . import oracle as O
from .core import check
from .gen import (fl, uf, hspecs, herm, qubits_of, matrix_of, Unitary,
                  UnitarySequence)

from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm

step_numbers = st.one_of(st.sampled_from([1, 2, 3, 5, 7, 10, 4]),
                         st.integers(1, 14))
times = st.one_of(uf(-6, 6), uf(-1, 1), uf(-1, 1), uf(-60, 60), fl(-6, 6),
                  st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0]),
                  st.integers(-12, 12))


@st.composite
def hams(draw, sizes=(1, 2, 3), max_terms=5, lo=0.1, hi=4.0, commuting=True,
         spread=False, crowd=False):
    """A list of Hermitian matrix specs; repeated and negated terms and
    terms that cancel occur, also a large energy offset, and with spread, terms of very different
    weight."""
    n = draw(st.sampled_from(list(sizes)))
    k = draw(st.integers(1, max_terms))
    if crowd and draw(st.integers(0, 7)) == 0:
        n, k = min(n, 2), draw(st.integers(6, 14))
    ts = [draw(hspecs(n, lo, hi)) for _ in range(k)]
    if k > 1 and draw(st.integers(0, 4)) == 0:
        i, j = draw(st.permutations(range(k)))[:2]
        ts[i] = dict(ts[j], c=ts[j]["c"] * draw(
            st.sampled_from([1, -1, 0.5])))
    if draw(st.integers(0, 5)) == 0:
        i = draw(st.integers(0, k - 1))
        ts[i] = dict(ts[i], off=draw(st.sampled_from(
            [1.0, -0.5, 30.0, -300.0, 2e3])))
    if commuting and draw(st.integers(0, 4)) == 0:
        ts = [dict(k="diag", n=n, c=t["c"], w=draw(st.lists(
            st.integers(-2, 2), min_size=2 ** n, max_size=2 ** n)
            .filter(any))) for t in ts]
    if spread and k > 1 and draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, k - 1))
        ts[i] = dict(ts[i], c=ts[i]["c"] * draw(st.sampled_from(
            [1e-3, 1e-2, 3e-2, 1e-5, 50.0])))
    return dict(n=n, ts=ts)


class Ham:
    def __init__(self, s):
        self.n = s["n"]
        self.d = 2 ** self.n
        self.ms = [herm(t) for t in s["ts"]]
        self.terms = [HamiltonianTerm(m.copy()) for m in self.ms]
        self.lib = Hamiltonian(list(self.terms))
        self.sum = np.sum(self.ms, axis=0)
        self.cs = [O.opnorm(m) for m in self.ms]
        self.lam = sum(self.cs)

    def exact(self, t):
        return O.evolve(self.sum, t)

    def scale(self, t):
        """Tolerance for an evolution over t (phases lose precision)."""
        return 1e-9 + 1e-12 * abs(t) * self.lam


def gate_matrices(seq, n, what):
    """Matrices of a sequence's gates, all of which act on all qubits in
    order; also the product of the sequence, recomputed from them."""
    d = 2 ** n
    check(isinstance(seq, UnitarySequence), what, "is", type(seq))
    check(seq.get_dimension() == d, what, "has dimension",
          seq.get_dimension())
    ms, es = [], seq.get_sequence_entries()
    for i, e in enumerate(es):
        check(qubits_of(e, what) == list(range(n)), what, "gate", i,
              "is on qubits", e.get_apply_to())
        ms.append(matrix_of(e.get_full_unitary(d), d, what + " gate"))
    check(seq.get_length() == len(ms), what, "length", seq.get_length())
    prod = O.product(ms, d)
    gap = O.phase_gap(matrix_of(seq.product(), d), prod)
    check(gap < 2e-9, what, "product differs from its gates by", gap)
    return ms, es, prod
