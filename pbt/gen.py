"""Strategies of JSON-able specs, and the builders that turn a spec into a
library object together with its reference model."""
import math
import numpy as np
from hypothesis import strategies as st

from . import oracle as O
from .core import check, Violation

from stoqcompiler.unitary import (
    Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive,
    UnitaryDefinitions, ParameterizedUnitary, ParameterizedUnitaryParameter,
    ParameterizedUnitaryDefinitions)

TWO_PI = 2 * math.pi

seeds = st.integers(0, 2 ** 32 - 1)


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def uf(lo, hi):
    """Floats spread evenly over lo..hi (fl favours simple values)."""
    return st.tuples(st.integers(0, 99), st.integers(0, 99)).map(
        lambda x: lo + (hi - lo) * (x[0] + x[1] / 99) / 100)


special_angles = st.integers(-64, 64).map(lambda k: k * math.pi / 8)
angles = st.one_of(special_angles, fl(-4 * math.pi, 4 * math.pi),
                   fl(-1000.0, 1000.0), fl(-1e-6, 1e-6))
# angles inside the range of the built-in parameterized gates
angles_2pi = st.one_of(
    st.integers(0, 16).map(lambda k: min(k * math.pi / 8, TWO_PI)),
    fl(0.0, TWO_PI), st.sampled_from([0.0, TWO_PI, math.pi, 1e-9]))


# ---- matrices ---------------------------------------------------------
@st.composite
def mspecs(draw, d):
    kind = draw(st.sampled_from(["haar", "givens", "haar", "perm", "diag"]))
    g = draw(st.one_of(st.just(0.0), fl(-math.pi, math.pi),
                       st.sampled_from([math.pi, math.pi / 2, math.pi / d])))
    if kind == "haar":
        return dict(k="haar", d=d, s=draw(seeds), g=g)
    if kind == "perm":
        return dict(k="perm", d=d, p=list(draw(st.permutations(range(d)))),
                    w=draw(st.lists(st.integers(0, 3), min_size=d,
                                    max_size=d)), g=g)
    if kind == "diag":
        return dict(k="diag", d=d, w=draw(st.lists(
            special_angles | fl(-7, 7), min_size=d, max_size=d)), g=g)
    r = draw(st.lists(st.tuples(
        st.integers(0, d - 1), st.integers(0, d - 1), angles, angles),
        max_size=6))
    return dict(k="givens", d=d, r=[list(x) for x in r], g=g)


def mat(s):
    d = s["d"]
    ph = np.exp(1j * s.get("g", 0.0))
    if s["k"] == "haar":
        rs = np.random.RandomState(s["s"])
        a = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
        q, r = np.linalg.qr(a)
        dg = np.diag(r)
        return ph * (q * (dg / np.abs(dg)))
    if s["k"] == "perm":
        m = np.zeros((d, d), dtype=complex)
        for i, j in enumerate(s["p"]):
            m[i, j] = [1, 1j, -1, -1j][s["w"][i]]
        return ph * m
    if s["k"] == "diag":
        return ph * np.diag(np.exp(1j * np.array(s["w"])))
    m = np.eye(d, dtype=complex)
    for i, j, a, b in s["r"]:
        if i == j:
            m[i] = m[i] * np.exp(1j * a)
            continue
        ri, rj = m[i].copy(), m[j].copy()
        c, n = math.cos(a), math.sin(a)
        m[i] = c * ri - n * np.exp(1j * b) * rj
        m[j] = n * np.exp(-1j * b) * ri + c * rj
    return ph * m


# ---- Hermitian matrices -----------------------------------------------
PAULI = {"I": O.I2, "X": O.X, "Y": O.Y, "Z": O.Z}


@st.composite
def hspecs(draw, n, lo=0.1, hi=4.0):
    """Hermitian matrix on n qubits with operator norm of order lo..hi."""
    kind = draw(st.sampled_from(["pauli", "dense", "pauli", "dense", "proj",
                                 "diag", "dense"]))
    c = draw(uf(lo, hi)) * draw(st.sampled_from([1, -1, 1]))
    if kind == "pauli":
        p = draw(st.lists(st.sampled_from("IXYZ"), min_size=n, max_size=n)
                 .map("".join))
        return dict(k="pauli", n=n, c=c, p=p)
    if kind == "diag":
        return dict(k="diag", n=n, c=c, w=draw(st.lists(
            st.integers(-2, 2), min_size=2 ** n, max_size=2 ** n)
            .filter(any)))
    return dict(k=kind, n=n, c=c, s=draw(seeds))


def herm(s):
    if s.get("off"):
        return herm(dict(s, off=0)) + s["off"] * np.eye(2 ** s["n"])
    d = 2 ** s["n"]
    if s["k"] == "pauli":
        m = np.array([[1]], dtype=complex)
        for ch in s["p"]:
            m = np.kron(m, PAULI[ch])
        return s["c"] * m
    if s["k"] == "diag":
        w = np.array(s["w"], dtype=float)
        return s["c"] * np.diag(w / np.abs(w).max()).astype(complex)
    rs = np.random.RandomState(s["s"])
    if s["k"] == "proj":
        v = rs.normal(size=d) + 1j * rs.normal(size=d)
        v /= np.linalg.norm(v)
        m = np.outer(v, v.conj())
    else:
        a = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
        m = a + a.conj().T
    m = m / np.linalg.norm(m, 2)
    m = (m + m.conj().T) / 2
    return s["c"] * m


# ---- gates ------------------------------------------------------------
FIXED = {
    "h": (1, "H", lambda: UnitaryDefinitions.h(), O.H),
    "t": (1, "T", lambda: UnitaryDefinitions.t(), O.T),
    "x": (1, "X", lambda: UnitaryDefinitions.sigmax(), O.X),
    "y": (1, "Y", lambda: UnitaryDefinitions.sigmay(), O.Y),
    "z": (1, "Z", lambda: UnitaryDefinitions.sigmaz(), O.Z),
    "cnot": (2, "CNOT", lambda: UnitaryDefinitions.cnot(),
             O.controlled_not(2)),
    "ccnot": (3, "CCNOT", lambda: UnitaryDefinitions.ccnot(),
              O.controlled_not(3)),
    "qecc": (3, "QECC", lambda: UnitaryDefinitions.qecc_phase_flip(),
             O.QECC),
}
ANGLED = {
    "rx": (1, "Rx", ["θ"], lambda a: UnitaryDefinitions.rx(a),
           lambda a: O.rot(O.X, a)),
    "ry": (1, "Ry", ["θ"], lambda a: UnitaryDefinitions.ry(a),
           lambda a: O.rot(O.Y, a)),
    "rz": (1, "Rz", ["θ"], lambda a: UnitaryDefinitions.rz(a),
           lambda a: O.rot(O.Z, a)),
    "rphi": (1, "R", ["θ", "Φ"], lambda a, b: UnitaryDefinitions.rphi(a, b),
             O.rphi),
    "xx": (2, "XX", ["θ"], lambda a: UnitaryDefinitions.xx(a), O.xx),
}
# parameterized built-ins: arity, name, parameters, factory, matrix
PARAM = {
    "prxy": (1, "Rxy", ["theta", "phi"],
             lambda: ParameterizedUnitaryDefinitions.rotation_xy(), O.rphi),
    "prxyz": (1, "Rxyz", ["alpha", "beta", "gamma"],
              lambda: ParameterizedUnitaryDefinitions.rotation_xyz(),
              O.rxyz),
    "pxx": (2, "XX", ["theta"],
            lambda: ParameterizedUnitaryDefinitions.xx(), O.xx),
}


@st.composite
def gates(draw, k, exportable=False):
    """A gate spec of arity k."""
    opts = {1: ["rx", "ry", "rz", "rphi", "prxy", "prxyz", "h", "t", "x",
                "y", "z"],
            2: ["xx", "cnot", "pxx", "gms"],
            3: ["ccnot", "qecc", "gms"]}.get(k, ["gms"])
    if not exportable:
        opts = opts + ["cust"] * (2 if k < 3 else 3) + ["te"]
    g = draw(st.sampled_from(opts))
    if g in FIXED:
        s = [g]
    elif g in ANGLED:
        s = [g] + [draw(angles) for _ in ANGLED[g][2]]
    elif g in PARAM:
        s = [g] + [draw(angles_2pi) for _ in PARAM[g][2]]
    elif g == "gms":
        s = [g, k, draw(angles)]
    elif g == "te":
        s = [g, draw(hspecs(k)), draw(fl(-10, 10)),
             draw(st.sampled_from(["", "0", "1+2"]))]
    else:
        ps = draw(st.lists(st.tuples(
            st.sampled_from(["a", "bc", "θ", "t", "d1"]),
            fl(-50, 50) | angles, st.booleans()), max_size=3,
            unique_by=lambda x: x[0]))
        s = [g, draw(mspecs(2 ** k)),
             draw(st.sampled_from(["U", "G", "custom", "Rx"])),
             [list(p) for p in ps]]
    return s


class Gate:
    """Library operation + reference (matrix, name, parameters, inverse)."""

    def __init__(self, s):
        inv = s[0] == "inv"
        if inv:
            s = s[1]
        g = s[0]
        self.inv = False
        if g in FIXED:
            self.k, self.name, f, self.m = FIXED[g]
            self.u = f()
            self.params = []
        elif g in ANGLED:
            self.k, self.name, names, f, m = ANGLED[g]
            self.u = f(*s[1:])
            self.m = m(*s[1:])
            self.params = [[n, v, True] for n, v in zip(names, s[1:])]
        elif g in PARAM:
            self.k, self.name, names, f, m = PARAM[g]
            self.u = f().as_unitary(list(s[1:]))
            self.m = m(*s[1:])
            self.params = [[n, v, True] for n, v in zip(names, s[1:])]
        elif g == "gms":
            self.k = s[1]
            self.name = "GMS%d" % s[1]
            self.u = UnitaryDefinitions.gms(s[1], s[2])
            self.m = O.gms(s[1], s[2])
            self.params = [["θ", s[2], True]]
        elif g == "te":
            h = herm(s[1])
            self.k = s[1]["n"]
            self.name = "H" + s[3]
            self.u = UnitaryDefinitions.time_evolution(h, s[2], s[3])
            self.m = O.evolve(h, s[2])
            self.params = [["t", s[2], False]]
        elif g == "cust":
            self.m = mat(s[1])
            self.k = int(round(math.log2(s[1]["d"])))
            self.name = s[2]
            self.params = [list(p) for p in s[3]]
            self.u = Unitary(2 ** self.k, self.m.copy(), self.name,
                             {p[0]: (p[1], p[2]) for p in s[3]})
        else:
            raise KeyError(g)
        if inv:
            self.u = self.u.inverse()
            self.m = self.m.conj().T
            self.inv = True

    def model(self, q):
        return Model(self.m, self.name, self.params, self.inv, list(q))


class Model:
    """Reference for one placed gate."""

    def __init__(self, m, name, params, inv, q):
        self.m, self.name, self.params = m, name, params
        self.inv, self.q = inv, q

    def inverse(self):
        return Model(self.m.conj().T, self.name, self.params, not self.inv,
                     self.q)

    def full(self, n):
        return O.embed(self.m, self.q, n)


@st.composite
def placements(draw, n, k):
    return list(draw(st.permutations(range(n))))[:k]


@st.composite
def entries(draw, n, max_k=3, exportable=False, inv=True):
    k = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
    k = min(k, n, max_k)
    g = draw(gates(k, exportable))
    if inv and draw(st.integers(0, 4)) == 0:
        g = ["inv", g]
    return dict(g=g, q=draw(placements(n, k)))


def build_entry(e):
    g = Gate(e["g"])
    return UnitarySequenceEntry(g.u, list(e["q"])), g.model(e["q"])


def models_product(models, n):
    return O.product([x.full(n) for x in models], 2 ** n)


# ---- comparing library objects with the model ---------------------------
def matrix_of(u, d, what="operation"):
    check(isinstance(u, Unitary), what, "is not an operation but", type(u))
    m = u.get_matrix()
    check(isinstance(m, np.ndarray) and m.shape == (d, d), what,
          "has matrix shape", getattr(m, "shape", None), "expected", (d, d))
    check(u.get_dimension() == d, what, "reports dimension",
          u.get_dimension(), "expected", d)
    check(np.all(np.isfinite(m)), what, "has a non-finite matrix")
    return m


def same(u, m, what, tol=1e-9):
    """The operation u equals the reference matrix m up to global phase."""
    d = len(m)
    gap = O.phase_gap(matrix_of(u, d, what), m)
    check(gap < tol, what, "differs from the reference matrix by", gap)


def check_params(u, params, what):
    for name, v, isang in params:
        got = u.get_parameter_value(name)
        check(got is not None, what, "lost parameter", name)
        check(len(got) == 2 and float(got[0]) == float(v)
              and bool(got[1]) == bool(isang),
              what, "parameter", name, "is", got, "expected", (v, isang))


def qubits_of(e, what):
    q = e.get_apply_to()
    q = [int(x) for x in q]
    return q


def check_entry(e, mod, n, what, tol=1e-9):
    check(isinstance(e, UnitarySequenceEntry), what, "is", type(e))
    check(qubits_of(e, what) == list(mod.q), what, "is placed on",
          e.get_apply_to(), "expected", mod.q)
    check(e.get_dimension() == len(mod.m), what, "gate dimension",
          e.get_dimension(), "expected", len(mod.m))
    full = e.get_full_unitary(2 ** n)
    same(full, mod.full(n), what, tol)
    check(full.get_operation_name() == mod.name, what, "is named",
          full.get_operation_name(), "expected", mod.name)
    check_params(full, mod.params, what)
    check(full.get_display_name().endswith("†") == mod.inv, what,
          "display", full.get_display_name(), "inverse mark expected:",
          mod.inv)


def check_entries(es, models, n, what, tol=1e-9):
    check(len(es) == len(models), what, "has", len(es), "gates, expected",
          len(models))
    for i, (e, m) in enumerate(zip(es, models)):
        check_entry(e, m, n, "%s gate %d" % (what, i), tol)


# ---- primitives (gate sets) ---------------------------------------------
class Guard:
    """Counts evaluations of generated parameterized gates: a deterministic
    work bound, so that a run that ignores its step budget is detected."""

    def __init__(self, limit=None):
        self.n = 0
        self.limit = limit

    def tick(self):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise Violation(
                "more than %d gates were generated: the step budget is "
                "not honoured" % self.limit)


# custom parameterized families: arity, matrix function of its parameters
CUST = {
    "c1": (1, 1, lambda a: O.rot(O.Y, a)),
    "c2": (1, 2, lambda a, b: O.rot(O.Z, b) @ O.rot(O.X, a)),
    "c3": (1, 3, lambda a, b, c: O.rot(O.X, c) @ O.rot(O.Z, b)
           @ O.rot(O.X, a)),
    "c4": (2, 1, lambda a: O.rot(np.kron(O.Z, O.Y), a)),
    "c5": (2, 2, lambda a, b: O.rot(np.kron(O.X, O.I2), b)
           @ O.rot(np.kron(O.Z, O.X), a)),
    "c6": (3, 1, lambda a: O.rot(np.kron(np.kron(O.X, O.Y), O.Z), a)),
    "c0": (1, 0, lambda: O.rot(O.X, 0.7)),
}


@st.composite
def primitives(draw, n, counted=False, allow_empty=True):
    """One primitive: fixed or parameterized gate + allowed placements."""
    if counted:
        kinds = [c for c in CUST if CUST[c][0] <= n]
    else:
        kinds = (["fix"] * 3 + [c for c in CUST if CUST[c][0] <= n]
                 + ["prxy", "prxyz", "te"] + (["pxx", "gms"]
                                              if n > 1 else []))
    kind = draw(st.sampled_from(kinds))
    if kind == "fix":
        k = draw(st.integers(1, min(n, 2 if n < 3 else 3)))
        g = draw(gates(k))
        if draw(st.integers(0, 4)) == 4:
            g = ["inv", g]
        p = dict(k="fix", g=g)
    elif kind in CUST:
        k, nv, _ = CUST[kind]
        rng = []
        for _ in range(nv):
            lo = draw(fl(-4, 4))
            rng.append([lo, lo + draw(fl(0.0, 4.0) | st.just(0.0)),
                        draw(st.booleans())])
        p = dict(k=kind, r=rng)
    elif kind == "te":
        k = draw(st.integers(1, min(n, 2)))
        a = draw(fl(-2, 2))
        p = dict(k="te", h=draw(hspecs(k)), r=[[a, a + draw(fl(0, 3))]])
    elif kind == "gms":
        k = draw(st.integers(2, min(n, 3)))
        p = dict(k="gms", n=k)
    else:
        k = PARAM[kind][0]
        p = dict(k=kind)
    mode = draw(st.integers(0, 5))
    if mode <= 2:
        p["a"] = None
    else:
        p["a"] = draw(st.lists(placements(n, k), max_size=3,
                               min_size=0 if allow_empty and mode == 3
                               else 1))
    return p


class Prim:
    """Library primitive + reference."""

    def __init__(self, p, idx, guard=None):
        k = p["k"]
        self.allowed = p["a"]
        self.fixed = None
        if k == "fix":
            g = Gate(p["g"])
            self.name, self.arity = g.name, g.k
            self.params = g.params
            self.ranges = None
            self.fixed = g
            lib = g.u
        elif k in CUST:
            self.arity, nv, f = CUST[k]
            self.name = "P%d%s" % (idx, k)
            self.params = [["p%d" % i, None, r[2]]
                           for i, r in enumerate(p["r"])]
            self.ranges = [r[:2] for r in p["r"]]
            self.f = f

            def matrix(*a):
                if guard is not None:
                    guard.tick()
                return f(*a)
            lib = ParameterizedUnitary(2 ** self.arity, matrix, [
                ParameterizedUnitaryParameter(
                    "p%d" % i, r[0], r[1], is_angle=r[2])
                for i, r in enumerate(p["r"])], self.name)
        elif k == "te":
            h = herm(p["h"])
            self.arity = p["h"]["n"]
            self.name = "Hp%d" % idx
            self.params = [["t", None, False]]
            self.ranges = [p["r"][0]]
            self.f = lambda t: O.evolve(h, t)
            lib = ParameterizedUnitaryDefinitions.time_evolution(
                h, p["r"][0][0], p["r"][0][1], "p%d" % idx)
        elif k == "gms":
            self.arity = p["n"]
            self.name = "GMS%d" % p["n"]
            self.params = [["theta", None, True]]
            self.ranges = [[0, TWO_PI]]
            self.f = lambda t: O.gms(p["n"], t)
            lib = ParameterizedUnitaryDefinitions.gms(p["n"])
        else:
            self.arity, self.name, names, fac, self.f = PARAM[k]
            self.params = [[x, None, True] for x in names]
            self.ranges = [[0, TWO_PI]] * len(names)
            lib = fac()
        self.lib = UnitaryPrimitive(
            lib, None if self.allowed is None
            else [list(q) for q in self.allowed])
        self.usable = self.allowed is None or len(self.allowed) > 0

    def values(self, full):
        """Recorded parameter values of a generated gate, or None."""
        vals = []
        for name, v, isang in self.params:
            got = full.get_parameter_value(name)
            if got is None or bool(got[1]) != bool(isang):
                return None
            vals.append(float(got[0]))
        return vals

    def mismatch(self, e, full, n):
        """None if the placed gate e (its full operation given) is an
        instance of this primitive on an n-qubit system; else a reason."""
        if full.get_operation_name() != self.name:
            return "name %s" % full.get_operation_name()
        if not self.usable:
            return "primitive has no allowed placement"
        q = qubits_of(e, "gate")
        if len(q) != self.arity or len(set(q)) != len(q) or not all(
                0 <= x < n for x in q):
            return "qubits %s" % q
        if self.allowed is not None and q not in [
                list(a) for a in self.allowed]:
            return "qubits %s not allowed %s" % (q, self.allowed)
        vals = self.values(full)
        if vals is None:
            return "parameters not recorded"
        if self.fixed is not None:
            if vals != [float(p[1]) for p in self.params]:
                return "parameter values %s" % vals
            m = self.fixed.m
        else:
            for v, (lo, hi) in zip(vals, self.ranges):
                if not lo <= v <= hi:
                    return "value %r outside [%r, %r]" % (v, lo, hi)
            m = self.f(*vals)
        gap = O.phase_gap(full.get_matrix(), O.embed(m, q, n))
        if gap > 1e-9:
            return "matrix differs by %g" % gap
        inv = self.fixed is not None and self.fixed.inv
        if full.get_display_name().endswith("†") != inv:
            return "inverse mark expected: %s" % inv
        return None


def attribute(e, prims, n, what):
    """Index of the primitive the gate is an instance of (or Violation)."""
    check(isinstance(e, UnitarySequenceEntry), what, "is", type(e))
    full = e.get_full_unitary(2 ** n)
    why = []
    for i, p in enumerate(prims):
        r = p.mismatch(e, full, n)
        if r is None:
            return i
        why.append("%s: %s" % (p.name, r))
    raise Violation("%s %s is not an instance of any permitted primitive "
                    "(%s)" % (what, full.get_display_name(),
                              "; ".join(why)))


def fresh_product(seq, n):
    """Product of a returned sequence, recomputed from its gates."""
    return O.product([
        matrix_of(e.get_full_unitary(2 ** n), 2 ** n, "gate")
        for e in seq.get_sequence_entries()], 2 ** n)


def text_key(seq):
    """Everything observable about a sequence, for equality tests."""
    n = int(round(math.log2(seq.get_dimension())))
    return [(tuple(qubits_of(e, "gate")),
             e.get_full_unitary(2 ** n).get_operation_name(),
             e.get_full_unitary(2 ** n).get_qasm(),
             e.get_full_unitary(2 ** n).get_matrix().round(9).tolist())
            for e in seq.get_sequence_entries()]
