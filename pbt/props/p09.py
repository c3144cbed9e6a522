import math
import re
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (entries, build_entry, fl, angles, seeds, matrix_of,
                   Unitary, UnitarySequence, UnitaryPrimitive,
                   UnitaryDefinitions, ParameterizedUnitaryDefinitions,
                   models_product, Model, qubits_of, PARAM)

RULE = ("sequences of standard, custom and inverted gates on generated "
        "qubits with generated parameter values, exported as QASM, JAQAL and "
        "display text and parsed back; non-trivial: a gate with a parameter "
        "or on several qubits")

NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def number(s, places, what):
    check(re.fullmatch(NUM, s), what, "number is", repr(s))
    if "e" not in s.lower() and "." in s:
        check(len(s.split(".")[1]) <= places, what, "has too many digits", s)
    return float(s)


def close(text, value, places, what):
    g = number(text, places, what)
    v = float(value)
    check(abs(g - v) <= 0.5 * 10 ** -places * (1 + 1e-6) + 1e-12 * abs(v),
          what, "is written", text, "for", v)
    return g


def qubit_list(text, sep, what):
    out = []
    for p in text.split(sep):
        m = re.fullmatch(r"q\[(\d+)\]", p.strip())
        check(m, what, "qubit is written", repr(p))
        out.append(int(m.group(1)))
    return out


def parse_qasm(line, mod, what):
    """Checks one QASM line; returns the parameter values it shows."""
    check(line.startswith(mod.name), what, repr(line), "name", mod.name)
    rest = line[len(mod.name):].rstrip()
    check(rest.endswith(";"), what, repr(line), "has no semicolon")
    rest = rest[:-1]
    vals = []
    if mod.params:
        check(rest.startswith("(") and ")" in rest, what, repr(line),
              "shows no parameters")
        inner, rest = rest[1:].split(")", 1)
        ps = inner.split(",")
        check(len(ps) == len(mod.params), what, repr(line), "shows",
              len(ps), "parameters, expected", len(mod.params))
        for t, (name, v, isang) in zip(ps, mod.params):
            t = t.strip()
            if isang:
                check(t.startswith("pi*"), what, "angle is written", t)
                vals.append(math.pi * close(
                    t[3:], float(v) / math.pi, 7, what + " " + name))
            else:
                check("pi" not in t, what, "value is written", t)
                vals.append(close(t, v, 7, what + " " + name))
    check(rest[:1].isspace(), what, repr(line), "separator")
    q = qubit_list(rest.strip(), ",", what)
    check(q == list(mod.q), what, "is written on", q, "expected", mod.q)
    return vals, q


def parse_jaqal(line, mod, what):
    check(line.startswith(mod.name + " "), what, repr(line), "name",
          mod.name)
    ps = line[len(mod.name):].split()
    nq = len(mod.q)
    check(len(ps) == nq + len(mod.params), what, repr(line), "has",
          len(ps), "fields, expected", nq, "qubits and", len(mod.params),
          "parameters")
    q = qubit_list(" ".join(ps[:nq]), " ", what)
    check(q == list(mod.q), what, "is written on", q, "expected", mod.q)
    vals = [close(t, v, 7, what + " " + name)
            for t, (name, v, _) in zip(ps[nq:], mod.params)]
    return vals, q


def parse_display(line, mod, what, placed=True):
    check(line.startswith(mod.name), what, repr(line), "name", mod.name)
    rest = line[len(mod.name):]
    check(rest.endswith("†") == mod.inv and rest.count("†") == mod.inv,
          what, repr(line), "inverse mark expected:", mod.inv)
    rest = rest.rstrip("†")
    if placed:
        m = re.match(r"\[([^\]]*)\]", rest)
        check(m, what, repr(line), "shows no qubits")
        qs = m.group(1).split(",")
        check(all(re.fullmatch(r"\s*\d+\s*", x) for x in qs), what,
              repr(line), "qubits are not plain integers")
        check([int(x) for x in qs] == list(mod.q), what, "is shown on",
              qs, "expected", mod.q)
        rest = rest[m.end():]
    if mod.params:
        check(rest.startswith("(") and rest.endswith(")"), what, repr(line),
              "shows no parameters")
        ps = rest[1:-1].split(", ")
        check(len(ps) == len(mod.params), what, repr(line), "parameters",
              ps)
        for t, (name, v, isang) in zip(ps, mod.params):
            check(t.startswith(name + "="), what, "parameter", t,
                  "expected", name)
            t = t[len(name) + 1:]
            if isang:
                check(t.endswith("π"), what, "angle is shown", t)
                close(t[:-1], float(v) / math.pi, 3, what + " " + name)
            else:
                check(not t.endswith("π"), what, "value is shown", t)
                close(t, v, 4, what + " " + name)
    else:
        check(rest == "", what, repr(line), "has trailing text", rest)


# names of the standard gates -> matrix from parameter values
GATES = {"Rx": lambda a: O.rot(O.X, a), "Ry": lambda a: O.rot(O.Y, a),
         "Rz": lambda a: O.rot(O.Z, a), "R": O.rphi, "Rxy": O.rphi,
         "Rxyz": O.rxyz, "XX": O.xx, "H": lambda: O.H, "T": lambda: O.T,
         "X": lambda: O.X, "Y": lambda: O.Y, "Z": lambda: O.Z,
         "CNOT": lambda: O.controlled_not(2),
         "CCNOT": lambda: O.controlled_not(3), "QECC": lambda: O.QECC}
for _n in range(1, 5):
    GATES["GMS%d" % _n] = (lambda k: lambda a: O.gms(k, a))(_n)


def body(text, count, what):
    lines = text.split("\n")
    check(lines[0].startswith("#") or lines[0].startswith("//"), what,
          "header is", repr(lines[0]))
    rest = lines[1:]
    while rest and rest[-1].strip() == "" and len(rest) > count:
        rest.pop()
    check(len(rest) == count, what, "has", len(rest), "lines for", count,
          "gates")
    return rest


def exports(seq, models, n, standard, rec):
    d = 2 ** n
    before = [m.q for m in models]
    qasm = body(seq.get_qasm(), len(models), "QASM")
    jaqal = body(seq.get_jaqal(), len(models), "JAQAL")
    disp = body(seq.get_display_output(), len(models), "display")
    back_q, back_j = [], []
    for i, m in enumerate(models):
        vq, q1 = parse_qasm(qasm[i], m, "QASM line %d" % i)
        vj, q2 = parse_jaqal(jaqal[i], m, "JAQAL line %d" % i)
        parse_display(disp[i], m, "display line %d" % i)
        if standard and not m.inv:
            back_q.append(O.embed(GATES[m.name](*vq), q1, n))
            back_j.append(O.embed(GATES[m.name](*vj), q2, n))
        else:
            back_q.append(m.full(n))
            back_j.append(m.full(n))
    if standard:
        tol = 1e-6 * (1 + len(models))
        got = matrix_of(seq.product(), d)
        for what, b in (("QASM", back_q), ("JAQAL", back_j)):
            gap = O.phase_gap(got, O.product(b, d))
            check(gap < tol, what, "text read back differs from the product "
                  "by", gap)
    check([m.q for m in models] == before, "unreachable")
    rec.hard(any(m.params or len(m.q) > 1 for m in models))


@st.composite
def seq_specs(draw, exportable):
    n = draw(st.sampled_from([2, 3, 1, 4, 2, 5]))
    es = draw(st.lists(entries(n, max_k=4, exportable=exportable),
                       max_size=8, min_size=draw(st.sampled_from([0, 1, 3]))))
    return dict(n=n, e=es, inv=draw(st.integers(0, 3)) == 0,
                comb=draw(st.integers(0, 4)) == 0,
                read=draw(st.booleans()))


def sequences(standard):
    def run(s, rec):
        n = s["n"]
        built = [build_entry(e) for e in s["e"]]
        seq = UnitarySequence(2 ** n, [b[0] for b in built])
        models = [b[1] for b in built]
        if s["read"]:
            seq.product()
        if s["inv"]:
            seq = seq.inverse()
            models = [m.inverse() for m in reversed(models)]
        if s["comb"]:
            seq = UnitarySequence.combine(seq, seq)
            models = models + models
        exports(seq, models, n, standard, rec)
        rec.note("n=%d" % n, "len=%d" % len(models))
        rec.note("inverted" if any(m.inv for m in models) else "plain")
    return run


@st.composite
def random_specs(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    ks = draw(st.lists(st.sampled_from(
        ["prxy", "prxyz", "rx", "cnot"] + (["pxx", "gms"] if n > 1 else [])
    ).filter(lambda k: n > 1 or k != "cnot"), min_size=1, max_size=4,
        unique=True))
    return dict(n=n, ks=ks, s=draw(seeds), c=draw(st.integers(1, 12)),
                a=draw(angles), how=draw(st.sampled_from(
                    ["direct", "rav", "layer", "compile"])))


def generated(s, rec):
    """Exports of randomly generated and compiled sequences."""
    from stoqcompiler.compiler import Compiler
    from stoqcompiler.verification import Verification
    n = s["n"]
    d = 2 ** n
    prims = []
    for k in s["ks"]:
        u = (PARAM[k][3]() if k in PARAM else
             ParameterizedUnitaryDefinitions.gms(n) if k == "gms" else
             UnitaryDefinitions.rx(s["a"]) if k == "rx" else
             UnitaryDefinitions.cnot())
        prims.append(UnitaryPrimitive(u))
    np.random.seed(s["s"])
    if s["how"] == "rav":
        seq = Verification.generate_rav_sequence(
            d, prims, s["c"], 0.0).compiled_sequence
    elif s["how"] == "layer":
        seq = Verification.generate_xeb_sequence(
            d, {p: 1 for p in prims}, 1 + s["c"] // 4).compiled_sequence
    elif s["how"] == "compile":
        seq = Compiler(d, prims, append_probability=0.9).compile(
            Unitary.random(d), 1.0, s["c"]).compiled_sequence
    else:
        seq = UnitarySequence(d, [Compiler.create_random_sequence_entry(
            d, prims) for _ in range(s["c"])])
    models = []
    names = {"Rxy": ["theta", "phi"], "Rxyz": ["alpha", "beta", "gamma"],
             "XX": ["theta"], "Rx": ["θ"], "CNOT": []}
    for e in seq.get_sequence_entries():
        u = e.get_full_unitary(d)
        name = u.get_operation_name()
        ps = []
        for p in names.get(name, ["theta"]):
            v = u.get_parameter_value(p)
            check(v is not None, "gate", name, "lost parameter", p)
            ps.append([p, v[0], True])
        q = qubits_of(e, "gate")
        models.append(Model(GATES[name](*[float(p[1]) for p in ps]),
                            name, ps, False, q))
    exports(seq, models, n, True, rec)
    rec.note(s["how"])


@st.composite
def direct_specs(draw):
    k = draw(st.integers(1, 3))
    return dict(k=k, name=draw(st.sampled_from(
        ["U", "Rx", "GMS3", "H0 λ/N", "a--b"])),
        ps=[list(p) for p in draw(st.lists(st.tuples(
            st.sampled_from(["a", "bc", "θ", "t", "λ1"]),
            st.one_of(fl(-50, 50), angles, fl(-1e-5, 1e-5), fl(-1e9, 1e9),
                      st.sampled_from([0.0, 0.5, 1e-7, 0.12345675, 1, -3])),
            st.booleans()), max_size=4, unique_by=lambda x: x[0]))],
        q=draw(st.one_of(st.just([]), st.lists(
            st.integers(0, 120), min_size=k, max_size=k, unique=True))),
        inv=draw(st.booleans()))


def direct(s, rec):
    """Texts of a single operation, placed on qubits of any index."""
    u = Unitary(2 ** s["k"], None, s["name"],
                {p[0]: (p[1], p[2]) for p in s["ps"]}, s["inv"],
                list(s["q"]))
    q = s["q"] or list(range(s["k"]))
    m = Model(np.eye(2 ** s["k"]), s["name"], s["ps"], s["inv"], q)
    parse_qasm(u.get_qasm(), m, "QASM")
    parse_jaqal(u.get_jaqal(), m, "JAQAL")
    parse_display(u.get_display_name(), m, "display", bool(s["q"]))
    rec.note("placed" if s["q"] else "unplaced")
    rec.hard(bool(s["ps"]) or len(q) > 1)


@st.composite
def wide_specs(draw):
    es = draw(st.lists(entries(11, max_k=3), min_size=1, max_size=2))
    for e in es:
        if 10 not in e["q"]:
            e["q"][draw(st.integers(0, len(e["q"]) - 1))] = 10
    return dict(e=es)


def wide(s, rec):
    """Qubits of two-digit numbers."""
    built = [build_entry(e) for e in s["e"]]
    seq = UnitarySequence(2 ** 11, [b[0] for b in built])
    for text, parse, what in ((seq.get_qasm(), parse_qasm, "QASM"),
                              (seq.get_jaqal(), parse_jaqal, "JAQAL"),
                              (seq.get_display_output(), parse_display,
                               "display")):
        lines = body(text, len(built), what)
        for i, (_, m) in enumerate(built):
            parse(lines[i], m, "%s line %d" % (what, i))
    rec.hard(any(len(m.q) > 1 for _, m in built))


@st.composite
def edited_specs(draw):
    n = draw(st.sampled_from([2, 1, 3]))
    pool = [draw(entries(n, max_k=3)) for _ in range(draw(st.integers(2, 5)))]
    idx = st.integers(0, len(pool) - 1)
    return dict(n=n, pool=pool, i=draw(st.lists(idx, max_size=12)),
                ops=[list(o) for o in draw(st.lists(st.tuples(
                    st.sampled_from(["swap", "swap", "turn", "al", "rl", "rf",
                                     "af", "undo", "inv", "comb"]), idx),
                    min_size=1, max_size=6))], read=draw(st.booleans()))


def edited(s, rec):
    """The texts follow the gates through every edit."""
    n = s["n"]
    built = [build_entry(e) for e in s["pool"]]
    q = UnitarySequence(2 ** n, [built[i][0] for i in s["i"]])
    cur = [built[i][1] for i in s["i"]]
    undo = None

    def look(x, models, when):
        for text, parse, what in (
                (x.get_qasm(), parse_qasm, "QASM"),
                (x.get_jaqal(), parse_jaqal, "JAQAL"),
                (x.get_display_output(), parse_display, "display")):
            lines = body(text, len(models), what + " " + when)
            for i, m in enumerate(models):
                parse(lines[i], m, "%s line %d %s" % (what, i, when))
        if s["read"]:
            x.product()
    look(q, cur, "at first")
    for j, (k, i) in enumerate(s["ops"]):
        e, m = built[i]
        when = "after edit %d" % j
        if not cur and k in ("swap", "turn", "rl", "rf"):
            continue
        if k in ("swap", "rl", "turn"):
            q.remove_last()
            undo, cur = cur, cur[:-1]
        if k == "rf":
            q.remove_first()
            undo, cur = cur, cur[1:]
        if k in ("swap", "al"):
            q.append_last(e)
            undo, cur = cur, cur + [m]
        if k in ("turn", "af"):
            q.append_first(e)
            undo, cur = cur, [m] + cur
        if k == "undo" and undo is not None:
            q.undo()
            cur, undo = undo, None
        if k == "inv":
            look(q.inverse(), [x.inverse() for x in reversed(cur)],
                 "inverted")
        if k == "comb":
            look(UnitarySequence.combine(q, q), cur + cur, "combined")
        look(q, cur, when)
    rec.note("len=%d" % len(cur))
    rec.hard(any(k in ("swap", "turn") for k, _ in s["ops"]))


SUBS = [
    Sub("edited", edited_specs(), edited, 200),
    Sub("wide", wide_specs(), wide, 8),
    Sub("standard", seq_specs(True), sequences(True), 900),
    Sub("any_gates", seq_specs(False), sequences(False), 500),
    Sub("generated", random_specs(), generated, 350),
    Sub("direct", direct_specs(), direct, 1200),
]


def _inverse_text():
    """QASM and JAQAL show an inverted gate exactly like the gate itself."""
    u = UnitaryDefinitions.rx(math.pi / 2)
    v = u.inverse()
    return v.get_qasm() == u.get_qasm() and v.get_jaqal() == u.get_jaqal()


KNOWN = {"inverse-text": _inverse_text}
