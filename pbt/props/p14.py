import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from ..comp import (problems, Problem, gate_sets, weights, probs, Compiler,
                    step_counts)
from .. import oracle as O
from ..gen import (attribute, Prim, fl, seeds, mat, qubits_of, Unitary,
                   UnitaryPrimitive)

from stoqcompiler.verification import Verification

RULE = ("gate set with generated ranges, allowed placements (also empty) and "
        "probabilities (also zero), used through every entry point; "
        "non-trivial: at least three gates came out of a gate set with a "
        "restriction (ranges, placements or a zero probability)")


def usable(prims, ps):
    return [p for p, w in zip(prims, ps or [1] * len(prims))
            if w > 0 and p.usable]


def restricted(prims, ps):
    return any(p.allowed is not None or p.ranges for p in prims) or (
        ps is not None and 0 in ps)


@st.composite
def direct_specs(draw):
    n = draw(st.sampled_from([2, 3, 1, 4]))
    ps = draw(gate_sets(n, max_size=5))
    return dict(n=n, ps=ps, w=weights(draw, ps), s=draw(seeds),
                c=draw(st.integers(5, 30)), layer=draw(st.lists(
                    st.integers(0, 3), min_size=len(ps),
                    max_size=len(ps))))


def direct(s, rec):
    n, d = s["n"], 2 ** s["n"]
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    pr = probs(s["w"])
    ok = usable(prims, pr)
    np.random.seed(s["s"])
    for i in range(s["c"]):
        e = (Compiler.create_random_sequence_entry(
            d, [p.lib for p in prims]) if pr is None else
            Compiler.create_random_sequence_entry(
                d, [p.lib for p in prims], pr if i % 2 else np.array(pr)))
        attribute(e, ok, n, "random gate")
    counts = {p.lib: c for p, c in zip(prims, s["layer"])
              if p.usable and c > 0}
    layer = Compiler.create_random_layer(d, counts)
    check(len(layer) == sum(counts.values()), "layer of", len(layer),
          "gates, expected", sum(counts.values()))
    inlayer = [p for p, c in zip(prims, s["layer"]) if p.usable and c > 0]
    for e in layer:
        attribute(e, inlayer, n, "gate of a layer")
    rec.hard(restricted(prims, pr))


def compiled(s, rec):
    p = Problem(s)
    res = p.run()
    if p.counts is None:
        ok = usable(p.prims, p.probs)
    else:
        ok = [x for x, c in zip(p.prims, p.counts) if c > 0]
    es = res.compiled_sequence.get_sequence_entries()
    for i, e in enumerate(es):
        attribute(e, ok, p.n, "compiled gate %d" % i)
    rec.note("layered" if p.counts else "plain", "gates=%d" % min(
        9, len(es)))
    rec.hard(len(es) >= 3 and restricted(p.prims, p.probs))


@st.composite
def rav_specs(draw):
    s = draw(problems(sizes=(2, 1, 3)))
    s["len"] = draw(st.integers(0, 8))
    s["steps"] = draw(step_counts(20))
    return s


def rav(s, rec):
    p = Problem(s)
    d = p.d
    np.random.seed(s["s"])
    kw = dict(stoq_append_probability=s["ap"], max_step_count=s["steps"])
    if p.counts is None:
        ok = usable(p.prims, p.probs)
        res = Verification.generate_rav_sequence(
            d, list(p.libs), s["len"], s["t"],
            unitary_primitive_probabilities=p.probs, **kw)
        results = [res]
    else:
        ok = [x for x, c in zip(p.prims, p.counts) if c > 0]
        results = [Verification.generate_layered_rav_sequence(
            d, p.layer(), s["len"], s["t"], **kw),
            Verification.generate_xeb_sequence(d, p.layer(), s["len"])]
    m = 0
    for res in results:
        es = res.compiled_sequence.get_sequence_entries()
        for i, e in enumerate(es):
            attribute(e, ok, p.n, "gate %d" % i)
        m += len(es)
    rec.note("layered" if p.counts else "plain")
    rec.hard(m >= 3 and restricted(p.prims, p.probs))


@st.composite
def wide_specs(draw):
    n = draw(st.integers(4, 8))
    k = draw(st.integers(3, min(n, 5)))
    return dict(n=n, k=k, s=draw(seeds), g=draw(seeds), a=draw(st.one_of(
        st.none(), st.lists(st.permutations(range(n)).map(
            lambda q: list(q[:k])), min_size=1, max_size=6))))


def wide(s, rec):
    """Gates on three to five qubits of large systems."""
    n, k = s["n"], s["k"]
    m = mat(dict(k="haar", d=2 ** k, s=s["g"]))
    g = UnitaryPrimitive(Unitary(2 ** k, m, "G"), s["a"]) if s["a"] else \
        UnitaryPrimitive(Unitary(2 ** k, m, "G"))
    np.random.seed(s["s"])
    ok = {tuple(q) for q in s["a"]} if s["a"] else None
    es = [Compiler.create_random_sequence_entry(2 ** n, [g])
          for _ in range(40)]
    es += Compiler.create_random_layer(2 ** n, {g: 5})
    for i, e in enumerate(es):
        q = tuple(int(x) for x in qubits_of(e, "random gate"))
        check(len(q) == k and len(set(q)) == k and min(q) >= 0
              and max(q) < n, "gate of", k, "qubits of", n, "placed on", q)
        check(ok is None or q in ok, "gate placed on", q, "permitted",
              s["a"])
    u = es[0].get_full_unitary(2 ** n)
    q = [int(x) for x in qubits_of(es[0], "random gate")]
    check(u.get_operation_name() == "G", "gate named",
          u.get_operation_name())
    gap = O.phase_gap(u.get_matrix(), O.embed(m, q, n))
    check(gap < 1e-8, "random gate is off its primitive by", gap)
    rec.note("k=%d" % k)
    rec.hard(ok is None or len(ok) > 1)


SUBS = [
    Sub("wide", wide_specs(), wide, 60),
    Sub("direct", direct_specs(), direct, 350),
    Sub("compiled", problems(max_steps=30), compiled, 350),
    Sub("rav", rav_specs(), rav, 250),
]
