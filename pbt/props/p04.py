import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (FIXED, ANGLED, same, check_params, angles, hspecs, herm,
                   fl, seeds, UnitaryDefinitions)

RULE = ("every standard gate at generated parameter values; non-trivial: "
        "gate with a parameter whose value does not give the identity, or a "
        "fixed gate")


def gate(s, rec):
    name = s["g"]
    if name in FIXED:
        k, opname, f, m = FIXED[name]
        u = f()
        params = []
        rec.hard()
    else:
        k, opname, names, f, mf = ANGLED[name]
        a = s["a"][:len(names)]
        u, m = f(*a), mf(*a)
        params = [[n, v, True] for n, v in zip(names, a)]
        rec.hard(O.phase_gap(m, np.eye(2 ** k)) > 1e-9)
    same(u, m, name, 1e-9)
    check(u.get_operation_name() == opname, "name is",
          u.get_operation_name())
    check_params(u, params, name)
    check(not u.get_display_name().endswith("†"), "marked inverse")
    rec.note(name)


def gms(s, rec):
    n, a = s["n"], s["a"]
    if a is None:
        u, a = UnitaryDefinitions.gms(n), math.pi / 4
        if n == 2:
            same(UnitaryDefinitions.xx(), O.xx(math.pi / 4), "default xx",
                 1e-9)
            check_params(UnitaryDefinitions.xx(), [["θ", a, True]],
                         "default xx")
    else:
        u = UnitaryDefinitions.gms(n, a)
    same(u, O.gms(n, a), "gms on %d qubits" % n, 1e-9)
    check(u.get_operation_name() == "GMS%d" % n, "name is",
          u.get_operation_name())
    check_params(u, [["θ", a, True]], "gms")
    rec.note("n=%d" % n)
    rec.hard(n > 1 and O.phase_gap(O.gms(n, a), np.eye(2 ** n)) > 1e-9)


@st.composite
def te_specs(draw):
    if draw(st.booleans()):
        h = draw(hspecs(draw(st.integers(1, 4)), 0.01, 8.0))
    else:
        h = dict(k="any", d=draw(st.sampled_from([1, 2, 3, 5, 6, 7, 9])),
                 s=draw(seeds), c=draw(fl(-8, 8)), real=draw(st.booleans()))
    return dict(h=h, t=draw(st.one_of(
        fl(-20, 20), st.sampled_from([0.0, 1.0, -1.0, 1e-9]),
        special_t, fl(-300, 300), st.integers(-9, 9))), x=draw(st.sampled_from(
            [None, "", "7", "a b", "1+3"])), t2=draw(fl(-10, 10)))


special_t = st.integers(-12, 12).map(lambda k: k * math.pi / 4)


def anyh(h):
    if h["k"] != "any":
        return herm(h)
    rs = np.random.RandomState(h["s"])
    a = rs.normal(size=(h["d"], h["d"]))
    if not h["real"]:
        a = a + 1j * rs.normal(size=(h["d"], h["d"]))
    a = a + a.conj().T
    return h["c"] * a / np.linalg.norm(a, 2)


def evolution(s, rec):
    h = anyh(s["h"])
    t = s["t"]
    x = s["x"]
    before = h.copy()
    u = (UnitaryDefinitions.time_evolution(h, t) if x is None
         else UnitaryDefinitions.time_evolution(h, t, x))
    check(np.array_equal(h, before), "Hamiltonian matrix modified")
    m = O.evolve(h, t)
    # rounding of the matrix exponential grows with the phases involved
    top = np.linalg.norm(h, 2) * max(abs(t), abs(t + s["t2"]))
    tol = 1e-9 * max(1.0, top / 100)
    same(u, m, "time evolution", tol)
    check(u.get_operation_name() == "H" + (x or ""), "name is",
          u.get_operation_name())
    check_params(u, [["t", t, False]], "time evolution")
    v = UnitaryDefinitions.time_evolution(h, s["t2"])
    both = UnitaryDefinitions.time_evolution(h, t + s["t2"])
    same(u.left_multiply(v), both.get_matrix(), "evolution for t1 then t2",
         tol)
    same(UnitaryDefinitions.time_evolution(h, -t), m.conj().T,
         "evolution for -t", tol)
    rec.note("d=%d" % len(h), "long" if top > 100 else "short")
    rec.hard(O.phase_gap(m, m.conj().T) > 1e-6)


SUBS = [
    Sub("gate", st.fixed_dictionaries(dict(
        g=st.sampled_from(sorted(ANGLED) * 3 + sorted(FIXED)),
        a=st.tuples(angles | st.integers(-7, 7),
                   angles | st.integers(-7, 7)).map(list))), gate, 2500),
    Sub("gms", st.fixed_dictionaries(dict(
        n=st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 2, 3, 4, 7, 3, 4, 5, 8]),
        a=st.one_of(angles, angles, st.none()))), gms, 500),
    Sub("evolution", te_specs(), evolution, 900),
]
