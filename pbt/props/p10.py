import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, rejected
from .. import oracle as O
from ..gen import (mspecs, mat, hspecs, herm, fl, seeds, gates, Gate,
                   placements, entries, build_entry, same, check_entries,
                   models_product, Unitary, UnitarySequence,
                   UnitarySequenceEntry, UnitaryPrimitive,
                   UnitaryDefinitions, ParameterizedUnitaryDefinitions,
                   ParameterizedUnitaryParameter)

from stoqcompiler.compiler import Compiler
from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.verification import Verification

RULE = ("an ill-formed input obtained by injecting one fault into a "
        "generated well-formed input, whose valid twin must be accepted; "
        "non-trivial: every case with a fault injected into an input of "
        "dimension above 1")

accepted_dims = st.sampled_from([2, 4, 3, 5, 6, 8])


def must(fn, what):
    """The valid twin: any exception in it is reported by the runner."""
    return fn()


def refuse(fn, *what):
    check(rejected(fn), "accepted:", *what)


# ---- matrices -----------------------------------------------------------
@st.composite
def matrix_specs(draw):
    d = draw(accepted_dims)
    return dict(m=draw(mspecs(d)), f=draw(st.sampled_from(
        ["scale", "entry", "row", "column", "rank", "zero", "nan", "inf",
         "wide", "tall", "dim+", "dim-", "list", "rank1", "rank3",
         "noise", "dim0"])),
        e=draw(fl(-4, 1).map(lambda x: 10.0 ** x)),
        i=draw(st.integers(0, d - 1)), j=draw(st.integers(0, d - 1)),
        a=draw(fl(0, 6.3)), s=draw(seeds))


def broken(m, s):
    d = len(m)
    f, e = s["f"], s["e"]
    b = m.copy()
    dim = d
    if f == "scale":
        b = b * (1 + e)
    elif f == "entry":
        b[s["i"], s["j"]] += e * np.exp(1j * s["a"])
    elif f == "row":
        b[s["i"]] *= 1 + e
    elif f == "column":
        b[:, s["j"]] *= max(0.0, 1 - e)
    elif f == "rank":
        b[s["i"]] = b[(s["i"] + 1) % d]
    elif f == "zero":
        b[:] = 0
    elif f in ("nan", "inf"):
        b[s["i"], s["j"]] = float(f)
    elif f == "wide":
        b = np.hstack([b, b[:, :1]])
    elif f == "tall":
        b = np.vstack([b, b[:1]])
    elif f == "dim+":
        dim = d + 1
    elif f == "dim-":
        dim = d - 1
    elif f == "dim0":
        dim = 0
    elif f == "rank1":
        b = b[0]
    elif f == "rank3":
        b = b[None]
    elif f == "noise":
        r = np.random.RandomState(s["s"])
        b = b + max(e, 1e-3) * r.normal(size=b.shape)
    else:
        b = b.tolist()
    return dim, b


def matrices(s, rec):
    m = mat(s["m"])
    d = len(m)
    must(lambda: Unitary(d, m.copy()), "unitary")
    dim, b = broken(m, s)
    if isinstance(b, np.ndarray) and b.ndim == 2 and dim == d \
            and b.shape == (d, d) and np.all(np.isfinite(b)):
        dev = np.abs(b @ b.conj().T - np.eye(d)).max()
        if dev < 5e-5:
            return
    refuse(lambda: Unitary(dim, b), "matrix with fault", s["f"])
    if s["f"] in ("scale", "entry", "row", "noise", "zero", "rank"):
        u = Unitary(d, m)
        g = UnitaryPrimitive(u)
        from stoqcompiler.unitary import ParameterizedUnitary
        p = ParameterizedUnitary(
            d, lambda t: b, [ParameterizedUnitaryParameter(
                "t", 0, 1, True)], "bad")
        refuse(lambda: p.as_unitary([0.5]),
               "parameterized matrix with fault", s["f"])
    rec.note(s["f"])
    rec.hard()


# ---- operations on mismatched dimensions ----------------------------------
def mismatched(s, rec):
    a, b = Unitary(s["d"], mat(s["a"])), Unitary(s["e"], mat(s["b"]))
    ok = Unitary(s["d"])
    must(lambda: a.left_multiply(ok), "product")
    must(lambda: a.distance_from(ok), "distance")
    d = s["d"]
    for shape in ((d, 1), (1, d), (d, d + 1), (d, d - 1), (d - 1, d), (d,),
                  (d, d, 1), (d, d, d), (1, 1), ()):
        m = np.ones(shape, dtype=complex)
        refuse(lambda: a.distance_from(m), "distance_from", "matrix of shape",
               shape, "in dimension", d)
        refuse(lambda: a.close_to(m), "close_to", "matrix of shape",
               shape, "in dimension", d)
    for what, fn in (("left_multiply", lambda: a.left_multiply(b)),
                     ("right_multiply", lambda: a.right_multiply(b)),
                     ("distance_from", lambda: a.distance_from(b)),
                     ("close_to", lambda: a.close_to(b)),
                     ("close_to", lambda: a.close_to(b, 0.0)),
                     ("distance_from matrix",
                      lambda: a.distance_from(mat(s["b"])))):
        refuse(fn, what, "on dimensions", s["d"], s["e"])
    rec.hard()


@st.composite
def mismatched_specs(draw):
    d, e = draw(st.permutations([2, 4, 3, 8, 5]))[:2]
    return dict(d=d, e=e, a=draw(mspecs(d)), b=draw(mspecs(e)))


# ---- Hamiltonian terms ------------------------------------------------------
@st.composite
def term_specs(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return dict(h=draw(hspecs(n, 1.0, 1.0)), e=draw(st.integers(-12, 6)),
                f=draw(st.sampled_from(
                    ["asym", "imag-diag", "anti", "wide", "vector", "list",
                     "i-times", "nan"])),
                r=draw(fl(-2.5, 0).map(lambda x: 10.0 ** x)),
                i=draw(st.integers(0, 2 ** n - 1)),
                j=draw(st.integers(0, 2 ** n - 2)))


def terms(s, rec):
    scale = 10.0 ** s["e"]
    h = herm(s["h"]) * scale
    d = len(h)
    t = HamiltonianTerm(h.copy())
    check(np.abs(t.get_matrix() - h).max() < 1e-9 * scale,
          "valid term changed")
    f = s["f"]
    b = h.copy()
    i = s["i"]
    j = s["j"] if s["j"] < i else s["j"] + 1
    if f == "asym":
        b[i, j] += s["r"] * scale
    elif f == "imag-diag":
        b[i, i] += 1j * s["r"] * scale
    elif f == "anti":
        b[i, j] += 1j * s["r"] * scale
        b[j, i] += 1j * s["r"] * scale
    elif f == "i-times":
        b = 1j * b
    elif f == "wide":
        b = np.hstack([b, b[:, :1]])
    elif f == "vector":
        b = b[0]
    elif f == "nan":
        b[i, j] = b[j, i] = np.nan
    else:
        b = b.tolist()
    refuse(lambda: HamiltonianTerm(b), "Hamiltonian term with fault", f,
           "at scale", scale)
    if s["e"] >= 0 and f in ("i-times", "list"):
        refuse(lambda: UnitaryDefinitions.time_evolution(b, 1.0),
               "time evolution under", f)
        refuse(lambda: ParameterizedUnitaryDefinitions.time_evolution(
            b, 0.0, 1.0), "parameterized time evolution under", f)
    # Hamiltonians of no, mismatched or foreign terms
    must(lambda: Hamiltonian([t, t]), "Hamiltonian")
    other = HamiltonianTerm(np.eye(2 * d, dtype=complex))
    for bad in ([], [t, other], [other, t], [t, h], [h], t, (t,), None,
                [t, t, other]):
        refuse(lambda: Hamiltonian(bad), "Hamiltonian of", bad)
    rec.note(f, "scale=1e%d" % s["e"])
    rec.hard()


# ---- placements -------------------------------------------------------------
@st.composite
def place_specs(draw):
    n = draw(st.sampled_from([2, 3, 4, 1]))
    k = draw(st.integers(1, min(n, 3)))
    return dict(n=n, g=draw(gates(k)), q=draw(placements(n, k)),
                f=draw(st.sampled_from(
                    ["repeat", "negative", "more", "fewer", "outside",
                     "outside", "bigger"])),
                i=draw(st.integers(0, k - 1)), by=draw(st.integers(0, 3)),
                s=draw(seeds))


def placing(s, rec):
    n, q = s["n"], list(s["q"])
    d = 2 ** n
    g = Gate(s["g"])
    k = g.k
    e = must(lambda: UnitarySequenceEntry(g.u, list(q)), "entry")
    must(lambda: UnitaryPrimitive(g.u, [list(q)]), "primitive")
    must(lambda: UnitarySequence(d, [e]), "sequence")
    must(lambda: Compiler(d, [UnitaryPrimitive(g.u, [list(q)])]), "compiler")
    f = s["f"]
    b = list(q)
    if f == "repeat":
        if k == 1:
            return
        b[s["i"]] = b[(s["i"] + 1) % k]
    elif f == "negative":
        b[s["i"]] = -1 - s["by"]
    elif f == "more":
        b = b + [max(b) + 1 + s["by"]]
    elif f == "fewer":
        b = b[:-1]
    if f in ("repeat", "negative", "more", "fewer"):
        refuse(lambda: UnitarySequenceEntry(g.u, b), "placement", b,
               "of a gate on", k, "qubits")
        refuse(lambda: UnitaryPrimitive(g.u, [list(q), b]),
               "primitive placement", b)
        refuse(lambda: UnitaryPrimitive(g.u, [b]), "primitive placement", b)
    elif f == "outside":
        b[s["i"]] = n + s["by"]
        out = must(lambda: UnitarySequenceEntry(g.u, b), "other system")
        refuse(lambda: out.get_full_unitary(d), "qubits", b, "in", n,
               "qubits")
        refuse(lambda: UnitarySequence(d, [e, out]), "sequence with", b)
        refuse(lambda: UnitarySequence(d, [out]), "sequence with", b)
        c = Compiler(d, [UnitaryPrimitive(g.u, [b])], append_probability=1.0)
        np.random.seed(s["s"])
        refuse(lambda: c.compile(Unitary.random(d), 1.0, 3),
               "compiling with a primitive on", b)
    else:
        m = n + 1 + s["by"] % 2
        big = UnitarySequenceEntry(Unitary(2 ** m), list(range(m)))
        refuse(lambda: UnitarySequence(d, [big]), "gate on", m, "qubits")
        refuse(lambda: big.get_full_unitary(d), "gate on", m, "qubits")
        prim = UnitaryPrimitive(Unitary(2 ** m))
        # anywhere in the gate set, behind any number of fitting ones
        fit = [UnitaryPrimitive(g.u, [list(q)]) for _ in range(s["by"])]
        at = s["s"] % (len(fit) + 1)
        for bad, what in ((prim, "primitive on too many qubits"),
                          (g.u, "primitive that is a gate"),
                          (None, "primitive None")):
            mixed = fit[:at] + [bad] + fit[at:]
            refuse(lambda: Compiler(d, mixed), what, "at position", at)
            box = np.empty(len(mixed), dtype=object)
            box[:] = mixed
            refuse(lambda: Compiler(d, box), what, "at position", at,
                   "of an array")
            refuse(lambda: Verification.generate_rav_sequence(
                d, mixed, 1, 0.5), what, "for RAV at position", at)
        refuse(lambda: Compiler(d, [prim]), "compiler primitive on", m,
               "qubits")
        refuse(lambda: Verification.generate_rav_sequence(
            d, [prim], 1, 0.5), "RAV primitive on", m, "qubits")
        refuse(lambda: Verification.generate_xeb_sequence(
            d, {prim: 1}, 1), "XEB primitive on", m, "qubits")
    for bad in (g.u, None, "x", q):
        refuse(lambda: UnitarySequence(d, [e, bad]), "sequence entry", bad)
    rec.note(f)
    rec.hard()


# ---- values of parameterized gates ---------------------------------------
@st.composite
def value_specs(draw):
    k = draw(st.integers(1, 4))
    return dict(k=k, r=[[draw(fl(-5, 5)), draw(fl(0, 5))]
                        for _ in range(k)], i=draw(st.integers(0, k - 1)),
                x=draw(st.lists(fl(0, 1), min_size=k, max_size=k)),
                far=draw(st.sampled_from([0.0, 0.0, 1e-9, 1e-3, 1.0, 100.0])),
                n=draw(st.integers(1, 3)), box=draw(
                    st.sampled_from(["list", "array", "tuple"])))


def values(s, rec):
    """Values in range and in number are accepted, others are refused, even
    by matrix functions that would put up with them."""
    def matrix(a=0.1, b=0.2, c=0.3, d=0.4, *more):
        m = np.eye(2, dtype=complex)
        for i, x in enumerate((a, b, c, d)):
            if math.isfinite(x):
                m = O.rot((O.X, O.Y, O.Z)[i % 3], x) @ m
        return m
    from stoqcompiler.unitary import ParameterizedUnitary
    ps = [ParameterizedUnitaryParameter("p%d" % i, lo, lo + w, bool(i % 2))
          for i, (lo, w) in enumerate(s["r"])]
    g = ParameterizedUnitary(2, matrix, ps, "V")
    box = {"list": list, "array": np.array, "tuple": tuple}[s["box"]]
    good = [min(lo + w, lo + w * x) for (lo, w), x in zip(s["r"], s["x"])]
    if s["box"] != "tuple":
        must(lambda: g.as_unitary(box(good)), "values")
    i, (lo, w) = s["i"], s["r"][s["i"]]
    for v in (min(np.nextafter(lo, -np.inf), lo - s["far"]),
              max(np.nextafter(lo + w, np.inf), lo + w + s["far"]),
              float("nan"), float("inf"), -float("inf")):
        bad = list(good)
        bad[i] = float(v)
        refuse(lambda: g.as_unitary(box(bad)), "value", v, "in range",
               (lo, lo + w))
    for bad in (good[:-1], good[:-s["n"]], good + good[-1:] * s["n"], []):
        refuse(lambda: g.as_unitary(box(bad)), len(bad), "values for",
               len(good), "parameters")
    rec.note("parameters=%d" % s["k"])
    rec.hard()


# ---- ranges, compile and verification arguments ------------------------------
@st.composite
def range_specs(draw):
    lo = draw(fl(-1e3, 1e3))
    return dict(lo=lo, w=draw(st.one_of(
        fl(1e-6, 1e3), st.just(1.0))), h=draw(hspecs(1)))


def ranges(s, rec):
    lo, hi = s["lo"], s["lo"] + s["w"]
    P = ParameterizedUnitaryParameter
    must(lambda: P("p", lo, hi, True), "range")
    must(lambda: P("p", lo, lo, False), "degenerate range")
    for a, b in ((hi, lo), (np.nextafter(lo, np.inf), lo),
                 (float("nan"), lo), (lo, float("nan"))):
        refuse(lambda: P("p", a, b, True), "range", (a, b))
    refuse(lambda: P("", lo, hi, True), "empty parameter name")
    h = herm(s["h"])
    must(lambda: ParameterizedUnitaryDefinitions.time_evolution(
        h, lo, hi), "time range")
    refuse(lambda: ParameterizedUnitaryDefinitions.time_evolution(
        h, hi, lo), "time range", (hi, lo))
    rec.hard()


@st.composite
def compile_specs(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return dict(n=n, g=draw(gates(1)), m=draw(mspecs(2 ** n)),
                other=draw(st.sampled_from(
                    [x for x in (1, 2, 3) if x != n])),
                e=[draw(entries(n)) for _ in range(draw(st.integers(0, 2)))],
                steps=draw(st.integers(0, 3)), s=draw(seeds),
                t=draw(st.sampled_from([None, 0.0, 0.5, 1.0, 0.99])),
                x=draw(fl(1e-6, 10)))


def compiling(s, rec):
    n = s["n"]
    d, e = 2 ** n, 2 ** s["other"]
    g = Gate(s["g"])
    prim = UnitaryPrimitive(g.u)
    target, wrong = Unitary(d, mat(s["m"])), Unitary(e)
    np.random.seed(s["s"])
    arr = np.empty(1, dtype=object)
    arr[0] = prim
    V = Verification
    for prims in ([prim], arr):
        must(lambda: Compiler(d, prims).compile(
            target, s["t"], s["steps"]), "compile")
        must(lambda: V.generate_rav_sequence(
            d, prims, 2, s["t"], max_step_count=s["steps"]), "RAV")
    must(lambda: Compiler(d, [prim]).compile_layered(
        target, {prim: 2}, s["t"], s["steps"]), "layered compile")
    must(lambda: V.generate_layered_rav_sequence(
        d, {prim: 2}, 1, s["t"], max_step_count=s["steps"]), "layered RAV")
    steps = max(1, s["steps"])
    c = Compiler(d, [prim])
    for what, fn in (
            ("target of another dimension",
             lambda: c.compile(wrong, s["t"], steps)),
            ("target that is a matrix",
             lambda: c.compile(mat(s["m"]), s["t"], steps)),
            ("no primitives",
             lambda: Compiler(d, []).compile(target, s["t"], steps)),
            ("no primitives, no steps",
             lambda: Compiler(d, []).compile(target, s["t"], 0)),
            ("layered target of another dimension",
             lambda: c.compile_layered(wrong, {prim: 1}, s["t"], steps)),
            ("layered target that is a matrix",
             lambda: c.compile_layered(mat(s["m"]), {prim: 1}, s["t"],
                                       steps)),
            ("layer given as a list",
             lambda: c.compile_layered(target, [prim], s["t"], steps)),
            ("primitives that are gates", lambda: Compiler(d, [g.u])),
            ("dimension 0", lambda: Compiler(0, [])),
            ("RAV threshold above 1", lambda: V.generate_rav_sequence(
                d, [prim], 1, 1.0 + s["x"], max_step_count=steps)),
            ("RAV threshold below 0", lambda: V.generate_rav_sequence(
                d, [prim], 1, -s["x"], max_step_count=steps)),
            ("negative RAV length", lambda: V.generate_rav_sequence(
                d, [prim], -1, 0.5, max_step_count=steps)),
            ("layered RAV threshold above 1",
             lambda: V.generate_layered_rav_sequence(
                 d, {prim: 1}, 1, 1.0 + s["x"], max_step_count=steps)),
            ("layered RAV threshold below 0",
             lambda: V.generate_layered_rav_sequence(
                 d, {prim: 1}, 1, -s["x"], max_step_count=steps)),
            ("negative layer count",
             lambda: V.generate_layered_rav_sequence(
                 d, {prim: 1}, -1, 0.5, max_step_count=steps)),
            ("negative XEB layer count",
             lambda: V.generate_xeb_sequence(d, {prim: 1}, -1))):
        refuse(fn, what, "threshold", s["t"])
    a = UnitarySequence(d, [build_entry(x)[0] for x in s["e"]])
    b = UnitarySequence(e)
    must(lambda: UnitarySequence.combine(a, a), "combine")
    for bad in ((a, b), (b, a), (a, a, b), (), (a, None),
                (a, a.get_sequence_entries()), (a, target)):
        refuse(lambda: UnitarySequence.combine(*bad), "combination of",
               [type(x).__name__ for x in bad])
    rec.hard()


# ---- a refused edit leaves everything as it was ------------------------------
@st.composite
def edit_specs(draw):
    n = draw(st.sampled_from([2, 1, 3]))
    pool = [draw(entries(n)) for _ in range(draw(st.integers(1, 3)))]
    return dict(n=n, pool=pool, init=draw(st.lists(
        st.integers(0, len(pool) - 1), max_size=4)),
        pre=draw(st.lists(st.tuples(st.sampled_from(
            ["af", "al", "rf", "rl", "prod", "undo"]),
            st.integers(0, len(pool) - 1), st.booleans()), max_size=4)),
        bad=draw(st.lists(st.tuples(
            st.sampled_from(["af", "al"]),
            st.sampled_from(["qubit", "big", "unitary", "none", "undo",
                             "combine"]), st.booleans()),
            min_size=1, max_size=4)))


def edits(s, rec):
    n = s["n"]
    d = 2 ** n
    built = [build_entry(e) for e in s["pool"]]
    cur = [built[i][1] for i in s["init"]]
    seq = UnitarySequence(d, [built[i][0] for i in s["init"]])
    undo = None
    for k, i, save in s["pre"]:
        if k in ("af", "al"):
            if save:
                undo = list(cur)
            f = seq.append_first if k == "af" else seq.append_last
            f(built[i][0], save_undo=save)
            cur = ([built[i][1]] + cur if k == "af"
                   else cur + [built[i][1]])
        elif k in ("rf", "rl"):
            if cur and save:
                undo = list(cur)
            f = seq.remove_first if k == "rf" else seq.remove_last
            f(save_undo=save)
            cur = cur[1:] if k == "rf" else cur[:-1]
        elif k == "prod":
            seq.product()
        elif undo is not None:
            seq.undo()
            cur, undo = undo, None
    bads = {"qubit": UnitarySequenceEntry(UnitaryDefinitions.ry(0.4), [n]),
            "big": UnitarySequenceEntry(Unitary(2 ** (n + 1)),
                                        list(range(n + 1))),
            "unitary": UnitaryDefinitions.rx(0.3), "none": None}
    for end, kind, save in s["bad"]:
        f = seq.append_first if end == "af" else seq.append_last
        if kind == "undo":
            if undo is None:
                refuse(seq.undo, "undo without a saved state")
        elif kind == "combine":
            refuse(lambda: UnitarySequence.combine(
                seq, UnitarySequence(2 * d)), "combination")
        else:
            refuse(lambda: f(bads[kind], save_undo=save), "edit", kind)
        check(seq.get_length() == len(cur), "refused edit changed the "
              "length to", seq.get_length())
    check_entries(seq.get_sequence_entries(), cur, n, "after refusal")
    same(seq.product(), models_product(cur, n), "product after refusal")
    if undo is None:
        refuse(seq.undo, "undo after a refused edit")
    else:
        seq.undo()
        check_entries(seq.get_sequence_entries(), undo, n,
                      "undo after refusal")
        same(seq.product(), models_product(undo, n),
             "product of undo after refusal")
    rec.note(*[b[1] for b in s["bad"]])
    rec.hard(len(cur) > 0 or undo is not None)


SUBS = [
    Sub("matrices", matrix_specs(), matrices, 1500),
    Sub("mismatched", mismatched_specs(), mismatched, 250),
    Sub("terms", term_specs(), terms, 900),
    Sub("placing", place_specs(), placing, 600),
    Sub("values", value_specs(), values, 250),
    Sub("ranges", range_specs(), ranges, 200),
    Sub("compiling", compile_specs(), compiling, 180),
    Sub("edits", edit_specs(), edits, 450),
]
