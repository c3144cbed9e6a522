import math
import random
import re
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (seeds, uf, mspecs, mat, hspecs, herm, matrix_of,
                   qubits_of, Unitary, UnitaryDefinitions, UnitaryPrimitive,
                   UnitarySequence, UnitarySequenceEntry,
                   ParameterizedUnitary, ParameterizedUnitaryParameter,
                   ParameterizedUnitaryDefinitions)
from ..comp import Compiler
from ..rav import Verification
from ..ham import Hamiltonian, HamiltonianTerm
from .p27 import sets, trace

RULE = ("equal numbers, matrices and lists of different types and memory "
        "layouts given to the same calls; non-trivial: at least two "
        "arguments have another type than in the plain call")

# Types a number of the given kind may have. Counts and sizes are integers;
# times, angles and ranges are doubles or whole numbers of any integer type.
INTS = {"int": int, "i64": np.int64, "i32": np.int32,
        "intp": np.intp}
FLOATS = {"float": float, "f64": np.float64}
SMALL = dict(FLOATS, f32=np.float32, f16=np.float16)


class Kinds:
    """The types drawn for a call, used in turn; none for the plain call."""

    def __init__(self, ks):
        self.ks = ks
        self.i = self.changed = 0

    def turn(self, options):
        if self.ks is None:
            return None
        k = self.ks[self.i % len(self.ks)]
        self.i += 1
        k = options[k % len(options)]
        self.changed += k not in ("int", "float", "list", "plain")
        return k

    def size(self, x):
        """An integer: a dimension, a count, a qubit."""
        return INTS[self.turn(["i64", "i32", "int", "intp"]) or "int"](x)

    def real(self, x):
        """A number; whole numbers may be integers."""
        whole = float(x).is_integer() and abs(x) < 2 ** 31
        k = self.turn(["i64", "f64", "i32", "int", "float"] if whole
                      else ["f64", "float"])
        if k is None:
            return float(x)
        return {**INTS, **FLOATS}[k](x)

    def level(self, x):
        """A threshold, probability or rate, exact in single precision."""
        k = self.turn(["f64", "f32", "float"])
        if k == "f32" and float(np.float32(x)) != x:
            k = "f64"
        return SMALL[k or "float"](x)

    def items(self, xs, kinds=("tuple", "array", "list")):
        """A list of integers."""
        k = self.turn(list(kinds)) or "list"
        if k == "array":
            return np.array(xs, dtype=[np.int64, np.int32][len(xs) % 2])
        return tuple(self.size(x) for x in xs) if k == "tuple" else \
            [self.size(x) for x in xs]

    def matrix(self, m):
        """The same matrix with another element type or memory layout."""
        m = np.array(m, dtype=complex)
        kinds = ["plain", "F", "strided", "readonly", "swapped", "reversed",
                 "long", "back"]
        if not m.imag.any():
            kinds += ["real", "real", "longreal"]
        for k, t in NARROW:
            if np.array_equal(m.astype(t).astype(complex), m):
                kinds += [k, k]
        k = self.turn(kinds)
        if k is None or k == "plain":
            return m
        if k in dict(NARROW):
            return m.astype(dict(NARROW)[k])
        return LAYOUTS[k](m)


def strided(m):
    a = np.full((2 * len(m), 3 * len(m)), 7 + 7j)
    a[::2, 1::3] = m
    return a[::2, 1::3]


def readonly(m):
    m = m.copy()
    m.setflags(write=False)
    return m


LAYOUTS = {
    "F": np.asfortranarray,
    "strided": strided,
    "readonly": readonly,
    "swapped": lambda m: m.astype(">c16"),
    "reversed": lambda m: np.ascontiguousarray(m[::-1, ::-1])[::-1, ::-1],
    "back": lambda m: np.ascontiguousarray(m.T).T,
    "long": lambda m: m.astype(np.clongdouble),
    "real": lambda m: m.real.copy(),
    "longreal": lambda m: m.real.astype(np.longdouble),
}
NARROW = [("c64", np.complex64), ("f32", np.float32), ("f16", np.float16),
          ("i64", np.int64), ("i32", np.int32), ("i8", np.int8),
          ("bool", np.bool_)]

picks = st.lists(st.integers(0, 839), min_size=3, max_size=14)


def gap(a, b):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return np.inf
    return float(np.abs(a - b).max())


def same_gate(a, b, what, tol=1e-9):
    check(a.get_dimension() == b.get_dimension(), what, "has dimension",
          b.get_dimension(), "instead of", a.get_dimension())
    g = gap(a.get_matrix(), b.get_matrix())
    check(g < tol, what, "differs by", g)
    check(b.get_matrix().dtype == np.complex128, what, "has a matrix of",
          b.get_matrix().dtype)
    check(a.get_operation_name() == b.get_operation_name(), what,
          "is named", b.get_operation_name())


PARAMETERS = ["θ", "Φ", "theta", "phi", "alpha", "beta", "gamma", "t", "x"]
NUMBER = re.compile(r"-?[0-9.]+(e[-+]?[0-9]+)?")


def text(u):
    """The texts of an operation, without the way numbers are written."""
    out = []
    for get in (u.get_display_name, u.get_qasm, u.get_jaqal):
        try:
            t = get()
        except Exception as e:
            t = type(e).__name__
        out.append(NUMBER.sub(lambda x: " %.9g " % float(x.group()), t))
    return out


# ---- single objects --------------------------------------------------------
@st.composite
def object_specs(draw):
    k = draw(st.sampled_from([1, 2, 1, 2, 3]))
    simple = draw(st.booleans())
    if simple:
        # entries that are exact in every element type
        d = 2 ** k
        m = dict(k="perm", d=d, p=list(draw(st.permutations(range(d)))),
                 w=draw(st.lists(st.sampled_from([0, 0, 2, 1]), min_size=d,
                                 max_size=d)), g=0.0)
        if draw(st.booleans()):
            m["w"] = [0] * d
        h = dict(k="pauli", n=k, c=draw(st.sampled_from(
            [1, -1, 2, 0.5, 3, -0.25])), p="".join(draw(st.lists(
                st.sampled_from("IXZYXZ"), min_size=k, max_size=k))))
    else:
        m, h = draw(mspecs(2 ** k)), draw(hspecs(k))
    return dict(k=k, m=m, h=h, ks=draw(picks),
                q=list(draw(st.permutations(range(4)))[:k]),
                t=draw(st.one_of(st.integers(-6, 6), uf(-3, 3))),
                a=[draw(st.one_of(st.integers(0, 6), uf(0, 6)))
                   for _ in range(3)], extra=draw(st.integers(0, 1)))


def objects(s, rec):
    k, t = s["k"], s["t"]
    d = 2 ** k
    n = max(s["q"]) + 1 + s["extra"]
    m, h = mat(s["m"]), herm(s["h"])
    if s["m"]["k"] == "perm" and not s["m"]["g"]:
        m = np.round(m.real) + 1j * np.round(m.imag)

    def make(c):
        out = {}
        u = out["operation"] = Unitary(c.size(d), c.matrix(m), "G")
        if k <= 2:
            out["tensor"] = u.tensor(u)
        out["inverse"] = u.inverse()
        out["square"] = u.left_multiply(u)
        out["identity"] = Unitary.identity(c.size(d))
        e = UnitarySequenceEntry(u, c.items(s["q"]))
        out["placed"] = e.get_full_unitary(c.size(2 ** n))
        q = UnitarySequence(c.size(2 ** n), [e])
        q.append_last(e)
        out["product"] = q.product()
        out["evolution"] = UnitaryDefinitions.time_evolution(
            c.matrix(h), c.real(t))
        out["evolution (parameterized)"] = \
            ParameterizedUnitaryDefinitions.time_evolution(
                c.matrix(h), c.real(-7), c.real(7)).as_unitary([c.real(t)])
        term = HamiltonianTerm(c.matrix(h))
        out["term"] = term
        ham = Hamiltonian([term, HamiltonianTerm(c.matrix(2 * h))])
        out["evolution (Hamiltonian)"] = ham.get_time_evolution_operator(
            c.real(t))
        out["user gate"] = ParameterizedUnitary(
            c.size(d), lambda x: c.matrix(O.evolve(h, x)),
            [ParameterizedUnitaryParameter("x", c.real(-7), c.real(7),
                                           False)], "V"
        ).as_unitary([c.real(t)])
        a = s["a"]
        D, P = UnitaryDefinitions, ParameterizedUnitaryDefinitions
        out["rx"] = D.rx(c.real(a[0]))
        out["ry"] = D.ry(c.real(a[0]))
        out["rz"] = D.rz(c.real(a[0]))
        out["rphi"] = D.rphi(c.real(a[0]), c.real(a[1]))
        out["xx"] = D.xx(c.real(a[0]))
        out["gms"] = D.gms(c.size(max(k, 2)), c.real(a[2]))
        out["rotation_xy"] = P.rotation_xy().as_unitary(
            [c.real(a[0]), c.real(a[1])])
        out["rotation_xyz"] = P.rotation_xyz().as_unitary(
            [c.real(x) for x in a])
        out["rotation_xyz (array)"] = P.rotation_xyz().as_unitary(
            np.array(a) if c.ks else [float(x) for x in a])
        out["xx (parameterized)"] = P.xx().as_unitary([c.real(a[0])])
        out["gms (parameterized)"] = P.gms(c.size(max(k, 2))).as_unitary(
            [c.real(a[2])])
        return out
    plain, typed = Kinds(None), Kinds(s["ks"])
    a, b = make(plain), make(typed)
    kinds = "of arguments of other types"
    for name in a:
        what = "%s %s" % (name, kinds)
        if name == "term":
            x, y = a[name], b[name]
            check(abs(x.get_coefficient() - y.get_coefficient()) < 1e-9,
                  what, "has coefficient", y.get_coefficient(),
                  "instead of", x.get_coefficient())
            check(gap(x.get_matrix(), y.get_matrix()) < 1e-9, what,
                  "has another matrix")
            check(gap(x.get_normalized_matrix(), y.get_normalized_matrix())
                  < 1e-9, what, "has another normalized matrix")
            continue
        same_gate(a[name], b[name], what)
        for p in PARAMETERS:
            x, y = (g.get_parameter_value(p) for g in (a[name], b[name]))
            check((x is None) == (y is None) and (x is None or (
                float(x[0]) == float(y[0]) and bool(x[1]) == bool(y[1]))),
                what, "has parameter", p, y, "instead of", x)
        check(text(a[name]) == text(b[name]), what, "reads", text(b[name]),
              "instead of", text(a[name]))
    o = a["operation"]
    for x in (o.inverse(), a["identity"]):
        z = float(o.distance_from(x))
        y = float(b["operation"].distance_from(x))
        check(abs(y - z) < 1e-6 and abs(y * y - z * z) < 1e-9, "operation",
              kinds, "is at distance", y, "instead of", z)
    rec.note("exact entries" if s["h"]["k"] == "pauli" else "dense")
    rec.hard(typed.changed >= 2)


# ---- compilation and verification --------------------------------------
@st.composite
def run_specs(draw):
    s = draw(sets().filter(lambda x: x["how"] != "names"))
    s = dict(s, ks=draw(picks), t=draw(st.sampled_from(
        [None, 0.98765, 0.96875, 0.875, 0.71234])),
        ap=draw(st.sampled_from([0.5, 0.25, 0.7, 1, 0.8125])),
        r=draw(st.sampled_from([0.1, 0.125, 1, 0.05, 3])), wide=0)
    s["ps"] = [dict(p, r=[float(math.floor(p["r"][0])),
                          float(math.floor(p["r"][0]) + 1 + i % 3)])
               if "r" in p and draw(st.booleans()) else p
               for i, p in enumerate(s["ps"])]
    if draw(st.integers(0, 5)) == 0 and s["kind"] in ("compile", "layered"):
        # a system where 4**dimension exceeds every fixed-size integer
        s["wide"] = draw(st.sampled_from([4, 5, 5, 6]))
        s["steps"] = min(s["steps"], 30)
        s["r"] = draw(st.sampled_from([0.5, 3, 50]))
    return s


class Case:
    def __init__(self, s, c):
        self.s = s
        self.n = n = max(s["n"], s["wide"])
        self.libs = []
        for i, p in enumerate(s["ps"]):
            if "m" in p:
                u = Unitary(c.size(2 ** p["k"]), c.matrix(mat(p["m"])),
                            "G%d" % i)
            else:
                h = herm(p["h"])
                u = ParameterizedUnitary(
                    c.size(2 ** p["k"]), lambda t, h=h: O.evolve(h, t),
                    [ParameterizedUnitaryParameter(
                        "t", c.real(p["r"][0]), c.real(p["r"][1]), False)],
                    "G%d" % i)
            self.libs.append(UnitaryPrimitive(
                u, [c.items(a) for a in p["a"]]))
        t = s["tgt"]
        m = mat(dict(t, s=(t["s"] + 77777) % 2 ** 32) if "s" in t else t)
        self.target = Unitary(c.size(2 ** n), c.matrix(
            O.embed(m, list(range(s["n"])), n)))
        self.c = c

    def run(self):
        s, c = self.s, self.c
        np.random.seed(s["s"] % 2 ** 32)
        random.seed(s["s"])
        d = c.size(2 ** self.n)
        libs = self.libs
        pr = None
        if s.get("w"):
            pr = list(np.array(s["w"]) / sum(s["w"]))
            if c.turn(["array", "list"]) == "array":
                pr = np.array(pr)
        t = None if s["t"] is None else c.level(s["t"])
        ap, r = c.level(s["ap"]), c.level(s["r"])
        steps, length = c.size(s["steps"]), c.size(s["len"])
        kind = s["kind"]
        if kind in ("compile", "layered"):
            comp = Compiler(d, libs, pr, ap, r)
            if kind == "compile":
                return comp.compile(self.target, t, steps)
            return comp.compile_layered(self.target, {
                p: c.size(k) for p, k in zip(libs, s["c"])}, t, steps)
        if kind == "rav":
            return Verification.generate_rav_sequence(
                d, libs, length, t, ap, pr, steps)
        # the counts of layers for verification are Python integers
        counts = dict(zip(libs, s["c"]))
        if kind == "lrav":
            return Verification.generate_layered_rav_sequence(
                d, counts, length, t, ap, steps)
        return Verification.generate_xeb_sequence(d, counts, length)


def same_gates(ea, eb, d, what):
    check(len(ea) == len(eb), what, "gives", len(eb), "gates instead of",
          len(ea))
    for i, (x, y) in enumerate(zip(ea, eb)):
        check(qubits_of(x, what) == qubits_of(y, what), what, "puts gate", i,
              "on", y.get_apply_to(), "instead of", x.get_apply_to())
        same_gate(x.get_full_unitary(d), y.get_full_unitary(d),
                  "%s: gate %d" % (what, i), 1e-8)
        check(x.get_full_unitary(d).get_display_name()
              == y.get_full_unitary(d).get_display_name(), what, "gate", i,
              "is shown as", y.get_full_unitary(d).get_display_name(),
              "instead of", x.get_full_unitary(d).get_display_name())


def runs(s, rec):
    plain, typed = Kinds(None), Kinds(s["ks"])
    ra = Case(s, plain).run()
    b = Case(s, typed)
    rb = b.run()
    what = "%s with arguments of other types" % s["kind"]
    trace(ra, rb, what)
    qa, qb = ra.compiled_sequence, rb.compiled_sequence
    same_gates(qa.get_sequence_entries(), qb.get_sequence_entries(),
               2 ** b.n, what)
    check(qa.get_display_output() == qb.get_display_output(), what,
          "is shown differently")
    check(all(float(x) == x and math.isfinite(x) for x in rb.cost_by_step),
          what, "has costs", rb.cost_by_step)
    rec.note(s["kind"], *(["large"] if s["wide"] else []))
    rec.hard(typed.changed >= 2)


# ---- Hamiltonians ------------------------------------------------------------
@st.composite
def ham_specs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    k = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["trotter", "random", "qdrift", "ideal",
                                 "stoq", "rav"]))
    hs = [dict(draw(hspecs(n, 0.5, 2.0)), k="dense", s=draw(seeds))
          if kind in ("stoq", "rav") else draw(hspecs(n, 0.5, 2.0))
          for _ in range(k)]
    if kind not in ("stoq", "rav") and draw(st.booleans()):
        hs = [dict(k="pauli", n=n, c=draw(st.sampled_from([1, -1, 2, 0.5])),
                   p="".join(draw(st.lists(st.sampled_from("IXZYXZ"),
                                           min_size=n, max_size=n))))
              for _ in range(k)]
    return dict(n=n, hs=hs, kind=kind, s=draw(seeds), ks=draw(picks),
                t=draw(st.one_of(st.sampled_from([1, 2, 1, 3]),
                                 uf(0.2, 2.0))),
                steps=draw(st.integers(1, 12)),
                dt=draw(st.one_of(st.just(1), uf(0.3, 1.5))),
                sim=draw(st.booleans()))


def hamiltonian(s, rec):
    n, d, kind = s["n"], 2 ** s["n"], s["kind"]
    ms = [herm(h) for h in s["hs"]]
    at = abs(np.trace(O.evolve(np.sum(ms, axis=0), s["t"]))) / d
    at = at + 0.2 * (1 - at)

    def run(c):
        h = Hamiltonian([HamiltonianTerm(c.matrix(m)) for m in ms])
        np.random.seed(s["s"] % 2 ** 32)
        random.seed(s["s"])
        t, dt, steps = c.real(s["t"]), c.real(s["dt"]), c.size(s["steps"])
        if kind in ("trotter", "random"):
            return None, h.get_trotter_sequence(t, steps, kind == "random")
        if kind == "qdrift":
            return None, h.get_qdrift_sequence(t, steps)
        if kind == "ideal":
            return None, h.get_ideal_sequence(t, steps)
        if kind == "stoq":
            r = h.compile_stoq_sequence(t, dt, c.level(at), s["sim"])
        else:
            r = h.compile_rav_sequence(t, dt, c.level(0.125), s["sim"])
        return r, r.compiled_sequence
    plain, typed = Kinds(None), Kinds(s["ks"])
    (ra, qa), (rb, qb) = run(plain), run(typed)
    what = "%s with arguments of other types" % kind
    if ra is not None:
        trace(ra, rb, what)
    ea, eb = qa.get_sequence_entries(), qb.get_sequence_entries()
    check(len(ea) == len(eb), what, "gives", len(eb), "gates instead of",
          len(ea))
    for i, (x, y) in enumerate(zip(ea, eb)):
        same_gate(x.get_full_unitary(d), y.get_full_unitary(d),
                  "%s: gate %d" % (what, i), 1e-8)
    g = O.phase_gap(matrix_of(qa.product(), d), matrix_of(qb.product(), d))
    check(g < 1e-7, what, "product differs by", g)
    rec.note(kind)
    rec.hard(typed.changed >= 2)


SUBS = [
    Sub("objects", object_specs(), objects, 300),
    Sub("runs", run_specs(), runs, 260),
    Sub("hamiltonian", ham_specs(), hamiltonian, 160),
]
