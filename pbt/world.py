"""A set of library objects built from one spec, the calls that can be made
on them, and fingerprints of everything observable about them."""
import functools
import random
import threading
import numpy as np
from hypothesis import strategies as st

from .comp import problems, Problem, Compiler
from .core import check
from .gen import (entries, Gate, herm, hspecs, seeds, Unitary,
                  UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive,
                  UnitaryDefinitions, ParameterizedUnitary,
                  ParameterizedUnitaryDefinitions as PUD)

from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.verification import Verification


@st.composite
def worlds(draw, sizes=(2, 1, 2, 3)):
    lay = dict(draw(problems(layered=True, sizes=sizes, max_steps=14)))
    n = lay["n"]
    lay["w"] = draw(st.one_of(st.none(), st.lists(
        st.sampled_from([1, 2, 5]), min_size=len(lay["ps"]),
        max_size=len(lay["ps"]))))
    hn = draw(st.sampled_from([1, 2]))
    return dict(p=lay, es=[draw(entries(n)) for _ in range(
        draw(st.integers(2, 4)))],
        h=[dict(draw(hspecs(hn)), k="dense", s=draw(seeds))
           for _ in range(draw(st.integers(2, 3)))], hn=hn)


class World:
    def __init__(self, s, guard=None):
        self.s = s
        p = self.p = Problem(s["p"], guard)
        self.n, self.d = p.n, p.d
        self.counts = p.layer()
        gates = [Gate(e["g"]) for e in s["es"]]
        self.entries = [UnitarySequenceEntry(g.u, list(e["q"]))
                        for g, e in zip(gates, s["es"])]
        self.seq = UnitarySequence(self.d, list(self.entries))
        self.edit = UnitarySequence(self.d, list(self.entries[:1]))
        self.terms = [HamiltonianTerm(self.herm(h)) for h in s["h"]]
        self.ham = Hamiltonian(list(self.terms))
        self.gate = gates[0].u
        self.ham_target = abs(np.trace(self.ham.get_time_evolution_operator(
            0.8).get_matrix())) / 2 ** s["hn"]

    def herm(self, h):
        m = herm(dict(h, n=self.s["hn"]))
        return m

    def steps(self):
        return self.p.s["steps"]


class Reading(threading.local):
    """Whether this thread is taking a fingerprint."""
    depth = 0


reading = Reading()


def fingerprint(f):
    @functools.wraps(f)
    def g(*a):
        reading.depth += 1
        try:
            return f(*a)
        finally:
            reading.depth -= 1
    return g


def num(x):
    return round(float(x), 12)


def raw(m, digits):
    """The rounded entries (without negative zeros), as text."""
    return (np.asarray(m, dtype=complex).round(digits) + (0.0 + 0.0j)
            ).tobytes().hex()


@fingerprint
def f_unitary(u):
    full = [u.get_dimension(), u.get_operation_name(), u.get_display_name(),
            raw(u.get_matrix(), 9)[:4096]]
    try:
        full += [u.get_qasm(), u.get_jaqal()]
    except Exception as e:
        full.append(type(e).__name__)
    return full


@fingerprint
def f_entry(e, d):
    return [[int(q) for q in e.get_apply_to()], e.get_dimension(),
            f_unitary(e.get_full_unitary(d))]


@fingerprint
def f_seq(q):
    d = q.get_dimension()
    return [d, q.get_length(), [f_entry(e, d)
                                for e in q.get_sequence_entries()],
            raw(q.product().get_matrix(), 7)[:4096]]


@fingerprint
def f_result(r):
    return [f_seq(r.compiled_sequence), [num(c) for c in r.cost_by_step]]


def probe(p, s):
    """A value in the parameter's range, the same for every equal range."""
    st0 = np.random.get_state()
    np.random.seed(s)
    v = p.random_value()
    np.random.set_state(st0)
    return v


def f_param(p):
    return [p.get_parameter_name(), bool(p.get_is_angle()),
            num(probe(p, 1)), num(probe(p, 2))]


def f_gate(g):
    if isinstance(g, ParameterizedUnitary):
        ps = g.get_parameters()
        return [g.get_dimension(), g.get_operation_name(),
                [f_param(p) for p in ps], f_unitary(g.as_unitary(
                    [probe(p, 3) for p in ps]))]
    return f_unitary(g)


def f_prim(p):
    a = p.get_allowed_apply_to()
    return [f_gate(p.get_unitary()), None if a is None
            else [[int(x) for x in q] for q in a]]


def f_term(t):
    return [t.get_dimension(), num(t.get_coefficient()),
            raw(t.get_normalized_matrix(), 9),
            raw(t.get_matrix(), 9)]


def f_ham(h):
    return [h.get_dimension(), h.get_qubit_count(),
            f_unitary(h.get_time_evolution_operator(0.7)),
            f_seq(h.get_trotter_sequence(0.9, 2))]


def f_compiler(c, p):
    """A compiler is observable through what it compiles."""
    st0, st1 = np.random.get_state(), random.getstate()
    np.random.seed(99)
    r = f_result(c.compile(p.target, 1.0, 6))
    np.random.set_state(st0)
    random.setstate(st1)
    return r


# ---- random calls: name -> function of the world giving a fingerprint -----
RANDOM = {
    "entry": lambda w: [f_entry(Compiler.create_random_sequence_entry(
        w.d, w.p.libs, w.p.probs), w.d) for _ in range(3)],
    "layer": lambda w: [f_entry(e, w.d) for e in Compiler.
                        create_random_layer(w.d, w.counts)],
    "compile": lambda w: f_result(w.p.compiler.compile(
        w.p.target, w.p.s["t"], w.steps())),
    "layered": lambda w: f_result(w.p.compiler.compile_layered(
        w.p.target, w.counts, w.p.s["t"], w.steps())),
    "rav": lambda w: f_result(Verification.generate_rav_sequence(
        w.d, w.p.libs, 4, w.p.s["t"], w.p.s["ap"], w.p.probs, 6)),
    "lrav": lambda w: f_result(Verification.generate_layered_rav_sequence(
        w.d, w.counts, 2, w.p.s["t"], w.p.s["ap"], 6)),
    "xeb": lambda w: f_result(Verification.generate_xeb_sequence(
        w.d, w.counts, 2)),
    "trotter": lambda w: f_seq(w.ham.get_trotter_sequence(
        1.1, 9, randomize=True)),
    "qdrift": lambda w: f_seq(w.ham.get_qdrift_sequence(1.1, 30)),
    "stoq": lambda w: f_result(w.ham.compile_stoq_sequence(
        0.8, 1.0, w.ham_target + 0.2 * (1 - w.ham_target), True)),
    "hrav": lambda w: f_result(w.ham.compile_rav_sequence(
        2.0, 1.0, 0.05, True)),
    "random": lambda w: f_unitary(Unitary.random(w.d)),
    "value": lambda w: [num(p.random_value()) for g in (
        PUD.rotation_xyz(), PUD.xx()) for p in g.get_parameters()],
}

FIXED_CALLS = {
    "evolve": lambda w: f_unitary(w.ham.get_time_evolution_operator(1.3)),
    "ideal": lambda w: f_seq(w.ham.get_ideal_sequence(1.3, 3)),
    "ordered": lambda w: f_seq(w.ham.get_trotter_sequence(1.3, 3)),
    "product": lambda w: f_seq(UnitarySequence(w.d, list(w.entries))),
    "inverse": lambda w: f_seq(w.seq.inverse()),
    "combine": lambda w: f_seq(UnitarySequence.combine(w.seq, w.seq)),
    "wide": lambda w: [f_entry(e, 2 * w.d) for e in w.entries],
    "text": lambda w: [w.seq.get_display_output()],
    "gate": lambda w: [f_unitary(w.gate.inverse()),
                       f_unitary(w.gate.tensor(w.gate)),
                       f_unitary(w.gate.left_multiply(w.gate)),
                       f_unitary(w.gate.right_multiply(w.gate)),
                       num(w.gate.distance_from(w.gate.inverse())),
                       bool(w.gate.close_to(w.gate.inverse(), 0.6))],
    "params": lambda w: [f_prim(p) for p in w.p.libs],
    "builtin": lambda w: [f_unitary(UnitaryDefinitions.gms(2, 0.3)),
                          f_unitary(UnitaryDefinitions.rphi(0.3, 1.0)),
                          f_gate(PUD.gms(2)), f_gate(PUD.rotation_xyz())],
}


def edits(w):
    """Edits of a sequence owned by the world, ending where it began."""
    for e in w.entries[1:]:
        w.edit.append_last(e)
        w.edit.append_first(e)
        w.edit.product()
    w.edit.undo()
    w.edit.append_first(w.entries[-1])
    for _ in w.entries[1:]:
        w.edit.remove_last()
        w.edit.remove_first()
    return f_seq(w.edit)


CALLS = dict(RANDOM, **FIXED_CALLS)
CALLS["edit"] = edits


def histories(top):
    """Some calls, or all of them in some order."""
    return st.one_of(
        st.lists(st.sampled_from(sorted(CALLS)), min_size=1, max_size=top),
        st.permutations(sorted(CALLS)))


def reseed(s):
    np.random.seed(s % 2 ** 32)
    random.seed(s % 2 ** 32)


