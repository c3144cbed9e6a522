import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import fl, hspecs, herm, matrix_of, same
from ..ham import (hams, Ham, Hamiltonian, HamiltonianTerm, times,
                   step_numbers, gate_matrices)

RULE = ("Hermitian matrices (Pauli products, dense, rank one, diagonal, "
        "either sign) at scales 1e-6..1e6, Hamiltonians of 1..14 of them on "
        "1..4 qubits; non-trivial: at least two terms, or a term that is "
        "not a positive multiple of a Pauli product")


@st.composite
def term_specs(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4]))
    return dict(h=draw(hspecs(n)), e=draw(st.one_of(
        st.integers(-6, 6), st.just(0))), real=draw(st.booleans()),
        tilt=draw(st.one_of(st.none(), st.none(), st.tuples(
            hspecs(n), fl(-10, -1)).map(list))))


def term(s, rec):
    m = herm(s["h"])
    if s["tilt"] is not None:
        # entries of very different size
        m = m + 10.0 ** s["tilt"][1] * herm(s["tilt"][0])
    m = m * 10.0 ** s["e"]
    arg = m.copy()
    if s["real"] and np.all(m.imag == 0):
        arg = m.real.copy()
        if np.all(arg == np.round(arg)):
            arg = arg.astype(int)
    t = HamiltonianTerm(arg)
    c, u, g = t.get_coefficient(), t.get_normalized_matrix(), t.get_matrix()
    top = O.opnorm(m)
    check(np.isreal(c) and c > 0, "coefficient", c)
    check(abs(c / top - 1) < 1e-9, "coefficient", c, "but largest singular "
          "value", top)
    check(u.shape == m.shape and abs(O.opnorm(u) - 1) < 1e-9,
          "normalised matrix has norm", O.opnorm(u))
    check(np.abs(u - u.conj().T).max() < 1e-9, "normalised matrix is not "
          "Hermitian")
    check(np.abs(g - m).max() < 1e-11 * top, "get_matrix differs by",
          np.abs(g - m).max())
    check(np.abs(c * u - m).max() < 1e-11 * top, "coefficient times "
          "normalised matrix differs by", np.abs(c * u - m).max())
    check(t.get_dimension() == len(m), "dimension", t.get_dimension())
    rec.note(s["h"]["k"], "negative" if s["h"]["c"] < 0 else "positive")
    rec.hard(s["h"]["k"] != "pauli" or s["h"]["c"] < 0)


@st.composite
def ham_specs(draw):
    s = draw(hams(sizes=(1, 2, 3, 2, 4), crowd=True))
    s["e"] = draw(st.sampled_from([0, 0, 0, -3, 3]))
    s["t"] = [draw(times), draw(times)]
    s["k"] = draw(step_numbers)
    s["big"] = draw(st.sampled_from([0, 0, 0, 60, 200]))
    return s


def scaled(s):
    f = 10.0 ** s["e"]
    h = Ham(dict(n=s["n"], ts=[dict(t, c=t["c"] * f) for t in s["ts"]]))
    return h, [t / f if s["e"] else t for t in s["t"]]


def evolution(s, rec):
    h, (t1, t2) = scaled(s)
    check(h.lib.get_dimension() == h.d and h.lib.get_qubit_count() == h.n,
          "dimension", h.lib.get_dimension(), h.lib.get_qubit_count())
    us = {}
    for t in (t1, t2, t1 + t2, -t1, 0.0):
        u = h.lib.get_time_evolution_operator(t)
        us[t] = matrix_of(u, h.d)
        same(u, h.exact(t), "evolution for time %r" % t, h.scale(t))
        p = u.get_parameter_value("t")
        check(p is not None and p[0] == t, "evolution for", t, "records", p)
        check(u.get_operation_name() == "H", "evolution is named",
              u.get_operation_name())
    gap = O.phase_gap(us[t1 + t2], us[t1] @ us[t2])
    check(gap < 2e-9 + 1e-11 * h.lam * (abs(t1) + abs(t2)),
          "evolutions for", t1, "and", t2, "do not compose:", gap)
    gap = O.phase_gap(us[-t1] @ us[t1], np.eye(h.d))
    check(gap < 2e-9 + 1e-11 * h.lam * abs(t1), "evolution for", -t1,
          "does not undo", t1, ":", gap)
    check(O.phase_gap(us[0.0], np.eye(h.d)) < 1e-9, "evolution for time 0")
    rec.note("terms=%d" % len(h.ms), "n=%d" % h.n)
    rec.hard(len(h.ms) > 1)


def ideal(s, rec):
    h, (t, _) = scaled(s)
    k = s["k"] + s["big"]
    seq = h.lib.get_ideal_sequence(t, k)
    ms, es, prod = gate_matrices(seq, h.n, "ideal sequence")
    check(len(ms) == k, "ideal sequence of", k, "steps has", len(ms),
          "gates")
    step = h.exact(t / k)
    for i, (m, e) in enumerate(zip(ms, es)):
        gap = O.phase_gap(m, step)
        check(gap < h.scale(t), "step", i, "of", k, "is off the evolution "
              "for t/n by", gap)
    gap = O.phase_gap(prod, h.exact(t))
    check(gap < 2e-9 + 1e-11 * abs(t) * h.lam, "ideal sequence is off the "
          "evolution by", gap)
    rec.note("steps=%s" % ("1" if k == 1 else "few" if k < 15 else "many"))
    rec.hard(len(h.ms) > 1 and k > 1)


def order(s, rec):
    """Neither the order of the terms nor splitting one matters."""
    h, (t, _) = scaled(s)
    u = matrix_of(h.lib.get_time_evolution_operator(t), h.d)
    rev = Hamiltonian(list(reversed(h.terms)))
    gap = O.phase_gap(matrix_of(rev.get_time_evolution_operator(t), h.d), u)
    check(gap < h.scale(t) + 1e-9, "reversed terms evolve differently:", gap)
    split = Hamiltonian([HamiltonianTerm(0.25 * h.ms[0])] + h.terms[1:]
                        + [HamiltonianTerm(0.75 * h.ms[0])])
    gap = O.phase_gap(matrix_of(split.get_time_evolution_operator(t), h.d),
                      u)
    check(gap < h.scale(t) + 1e-9, "a split term evolves differently:", gap)
    rec.hard(len(h.ms) > 1)


SUBS = [
    Sub("term", term_specs(), term, 900),
    Sub("evolution", ham_specs(), evolution, 450),
    Sub("ideal", ham_specs(), ideal, 220),
    Sub("order", ham_specs(), order, 120),
]
