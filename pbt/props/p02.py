import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (mspecs, mat, same, check_params, fl, Unitary, gates, Gate)

RULE = ("pairs and chains of operations of dimension 1..16 with names, "
        "parameters and qubit lists; non-trivial: some matrix is neither "
        "its own inverse nor commuting with its partner")

dims = st.sampled_from([2, 4, 3, 2, 4, 5, 6, 8, 16, 1])
names = st.sampled_from([None, "U", "Rx", "G gate", "I"])


@st.composite
def ops(draw, d):
    """A general operation: matrix, name, parameters, qubits, inverse."""
    k = {2: 1, 4: 2, 8: 3}.get(d)
    if k and draw(st.integers(0, 2)) == 0:
        return dict(gate=draw(gates(k)))
    return dict(m=draw(mspecs(d)), name=draw(names),
                ps=[list(p) for p in draw(st.lists(st.tuples(
                    st.sampled_from(["a", "θ", "t"]), fl(-20, 20),
                    st.booleans()), max_size=2, unique_by=lambda x: x[0]))],
                inv=draw(st.booleans()),
                q=draw(st.lists(st.integers(0, 9), max_size=3, unique=True)))


class Op:
    def __init__(self, s):
        if "gate" in s:
            g = Gate(s["gate"])
            self.u, self.m, self.name = g.u, g.m, g.name
            self.params, self.inv, self.q = g.params, False, []
        else:
            self.m = mat(s["m"])
            self.name = s["name"] or "U"
            self.params, self.inv, self.q = s["ps"], s["inv"], s["q"]
            self.u = Unitary(
                len(self.m), self.m.copy(), s["name"],
                {p[0]: (p[1], p[2]) for p in s["ps"]}, s["inv"],
                list(s["q"]))
        self.before = self.state()

    def state(self):
        u = self.u
        return (u.get_matrix().copy().tobytes(), u.get_display_name(),
                u.get_qasm(), u.get_jaqal(), u.get_operation_name(),
                [u.get_parameter_value(p[0]) for p in self.params])

    def unchanged(self, what):
        check(self.state() == self.before, "operand altered by", what)


def algebra(s, rec):
    a, b, c = [Op(x) for x in s["ops"]]
    for what, u, m in (
            ("left product", a.u.left_multiply(b.u), b.m @ a.m),
            ("right product", a.u.right_multiply(b.u), a.m @ b.m),
            ("chain left", a.u.left_multiply(b.u).left_multiply(c.u),
             c.m @ b.m @ a.m),
            ("chain right", a.u.right_multiply(b.u).right_multiply(c.u),
             a.m @ b.m @ c.m),
            ("mixed chain", a.u.left_multiply(b.u).right_multiply(c.u),
             b.m @ a.m @ c.m),
            ("product of inverses",
             a.u.inverse().left_multiply(b.u.inverse()),
             b.m.conj().T @ a.m.conj().T),
            ("inverse of product", a.u.left_multiply(b.u).inverse(),
             (b.m @ a.m).conj().T),
            ("product with own inverse", a.u.left_multiply(a.u.inverse()),
             np.eye(len(a.m))),
            ("square", a.u.right_multiply(a.u), a.m @ a.m)):
        same(u, m, what)
        for x in (a, b, c):
            x.unchanged(what)
    rec.note("d=%d" % len(a.m))
    rec.hard(np.abs(a.m @ b.m - b.m @ a.m).max() > 1e-3
             and O.phase_gap(a.m, a.m.conj().T) > 1e-3)


@st.composite
def algebra_specs(draw):
    d = draw(dims)
    return dict(ops=[draw(ops(d)) for _ in range(3)])


def inverses(s, rec):
    a = Op(s["op"])
    u, m, inv = a.u, a.m, a.inv
    plain = u.get_display_name()
    if inv:
        check(plain.endswith("†"), "inverse not displayed:", plain)
        plain = plain[:-1]
    check("†" not in plain, "display", plain)
    for i in range(s["times"]):
        prev = u
        u = u.inverse()
        m = m.conj().T
        inv = not inv
        same(u, m, "inverse %d" % (i + 1))
        check(u.get_display_name() == plain + ("†" if inv else ""),
              "display after", i + 1, "inversions is", u.get_display_name(),
              "expected", plain, "inverse" if inv else "")
        check(u.get_operation_name() == a.name, "name became",
              u.get_operation_name())
        check_params(u, a.params, "inverse")
        check(O.phase_gap(prev.get_matrix(), m.conj().T) < 1e-9,
              "inversion altered its operand")
        a.unchanged("inverse")
    rec.note("inv" if a.inv else "plain")
    rec.hard(O.phase_gap(a.m, a.m.conj().T) > 1e-3)


@st.composite
def inverse_specs(draw):
    return dict(op=draw(ops(draw(dims))), times=draw(st.integers(1, 4)))


def tensors(s, rec):
    us = [Op(x) for x in s["ops"]]
    u, m = us[0].u, us[0].m
    for x in us[1:]:
        u = u.tensor(x.u)
        m = np.kron(m, x.m)
        same(u, m, "tensor product")
        for y in us:
            y.unchanged("tensor product")
    same(u.inverse(), m.conj().T, "inverse of tensor product")
    if len(us) == 3:
        same(us[0].u.tensor(us[1].u.tensor(us[2].u)), m,
             "regrouped tensor product")
    # (A x B)(C x D) = AC x BD
    a, b = us[0], us[1]
    same(a.u.tensor(b.u).left_multiply(a.u.inverse().tensor(b.u)),
         np.kron(np.eye(len(a.m)), b.m @ b.m), "mixed product")
    rec.note("%d factors" % len(us))
    rec.hard(len(a.m) > 1 and len(b.m) > 1 and (
        len(a.m) != len(b.m) or O.phase_gap(a.m, b.m) > 1e-3))


@st.composite
def tensor_specs(draw):
    n = draw(st.sampled_from([2, 2, 3]))
    if draw(st.integers(0, 15)) == 0:
        # factors of very different dimension
        big = [draw(ops(draw(st.sampled_from([32, 64, 16])))),
               draw(ops(draw(st.sampled_from([1, 2, 3, 4]))))]
        return dict(ops=draw(st.permutations(big)))
    return dict(ops=[draw(ops(draw(st.sampled_from([2, 3, 4, 2, 5, 1]))))
                     for _ in range(n)])


SUBS = [
    Sub("algebra", algebra_specs(), algebra, 1200),
    Sub("inverses", inverse_specs(), inverses, 1500),
    Sub("tensors", tensor_specs(), tensors, 1000),
]
