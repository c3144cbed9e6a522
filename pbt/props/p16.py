import collections
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import stats
from ..comp import (problems, Problem, Compiler, letter_specs, Words, decode,
                    step_counts)
from ..gen import (CUST, Prim, Guard, attribute, fl, seeds, Unitary, qubits_of,
                   UnitaryPrimitive, UnitaryDefinitions)

from stoqcompiler.verification import Verification

RULE = ("layer compositions (1..4 primitives, counts 0..3) used through "
        "layered compilation, layered RAV, XEB and directly; non-trivial: "
        "a sequence of at least two layers of at least two gates, or an "
        "order with at least two possibilities")


def blocks(es, prims, counts, n, what):
    """The gates es are consecutive whole layers; returns their number."""
    d = 2 ** n
    L = sum(counts)
    if L == 0:
        check(len(es) == 0, what, "has gates from empty layers")
        return 0
    check(len(es) % L == 0, what, "has", len(es), "gates, layers have", L)
    ok = [p for p, c in zip(prims, counts) if c > 0]
    want = collections.Counter()
    for p, c in zip(prims, counts):
        want[p.name] += c
    want = +want
    for b in range(0, len(es), L):
        got = collections.Counter()
        for i, e in enumerate(es[b:b + L]):
            got[e.get_full_unitary(d).get_operation_name()] += 1
        check(got == want, what, "layer", b // L, "holds", dict(got),
              "expected", dict(want))
    for e in es:
        attribute(e, ok, n, what + " gate")
    return len(es) // L


def compiled(s, rec):
    p = Problem(s, Guard())
    res = p.run()
    k = blocks(res.compiled_sequence.get_sequence_entries(), p.prims,
               p.counts, p.n, "layered compilation")
    rec.note("layers=%d" % min(k, 5), "n=%d" % p.n)
    rec.hard(k >= 2 and sum(p.counts) >= 2)


@st.composite
def rav_specs(draw):
    s = draw(problems(layered=True, sizes=(2, 1, 3)))
    s["len"] = draw(st.integers(0, 5))
    s["steps"] = draw(step_counts(20))
    return s


def rav(s, rec):
    p = Problem(s)
    np.random.seed(s["s"])
    res = Verification.generate_layered_rav_sequence(
        p.d, p.layer(), s["len"], s["t"], stoq_append_probability=s["ap"],
        max_step_count=s["steps"])
    k = blocks(res.compiled_sequence.get_sequence_entries(), p.prims,
               p.counts, p.n, "layered RAV")
    xeb = Verification.generate_xeb_sequence(p.d, p.layer(), s["len"])
    j = blocks(xeb.compiled_sequence.get_sequence_entries(), p.prims,
               p.counts, p.n, "XEB")
    if sum(p.counts):
        check(j == s["len"], "XEB of", s["len"], "layers has", j)
        check(k >= s["len"], "layered RAV of", s["len"], "layers has", k)
    rec.note("layers=%d" % min(k, 9))
    rec.hard(k >= 2 and sum(p.counts) >= 2)


@st.composite
def order_specs(draw):
    c = draw(st.sampled_from(
        [[1, 1], [2, 1], [1, 2], [1, 1, 1], [2, 2], [1, 0, 2], [3, 1],
         [2, 1, 1], [1, 1, 1, 1], [1, 3], [0, 1, 1], [1, 1, 0, 2], [3], [4, 2], [5, 1],
         [3, 3], [2, 2, 2], [1, 1, 1, 1, 1, 1], [8, 1], [6, 6]]))
    return dict(c=c, s=draw(seeds), how=draw(st.sampled_from(
        ["layer", "xeb", "lrav"])))


def order(s, rec):
    """All distinct arrangements of a layer are equally likely."""
    items = [i for i, c in enumerate(s["c"]) for _ in range(c)]
    few = len(items) <= 4
    perms = sorted(set(itertools.permutations(items))) if few else []
    prims = [UnitaryPrimitive(Unitary(2, UnitaryDefinitions.rx(
        0.3 + i).get_matrix(), "G%d" % i)) for i in range(len(s["c"]))]
    counts = dict(zip(prims, s["c"]))
    np.random.seed(s["s"])
    n = 260
    seen = collections.Counter()
    flat = []
    if s["how"] == "layer":
        for _ in range(n):
            flat += list(Compiler.create_random_layer(8, counts))
    elif s["how"] == "lrav":
        while len(flat) < n * len(items):
            flat += Verification.generate_layered_rav_sequence(
                8, counts, 5, 0.0).compiled_sequence.get_sequence_entries()
    else:
        while len(flat) < n * len(items):
            flat += Verification.generate_xeb_sequence(
                8, counts, 15).compiled_sequence.get_sequence_entries()
    names = [int(e.get_full_unitary(8).get_operation_name()[1:])
             for e in flat]
    L = len(items)
    lay = [tuple(names[i:i + L]) for i in range(0, len(names), L)]
    for x in lay:
        seen[x] += 1
    for x in seen:
        check(sorted(x) == items, "layer", x, "expected the gates", items)
    # each position alone, and pairs of positions
    for j in range(L):
        for i, c in enumerate(s["c"]):
            stats.binom(sum(x[j] == i for x in lay), len(lay), c / L,
                        "gate %d at position %d" % (i, j))
        for j2 in range(j):
            stats.binom(sum(x[j] == x[j2] for x in lay), len(lay),
                        sum(c * (c - 1) for c in s["c"]) / (L * (L - 1)),
                        "the same gate at positions %d and %d" % (j2, j))
    # and the qubits there
    qs = [qubits_of(e, "gate of a layer")[0] for e in flat]
    for j in range(L):
        at = qs[j::L]
        for q in range(3):
            stats.binom(at.count(q), len(at), 1 / 3,
                        "qubit %d at position %d" % (q, j))
        for j2 in range(j):
            two = list(zip(qs[j2::L], at))
            for what, f in (("the same qubit", lambda a, b: a == b),
                            ("ascending qubits", lambda a, b: a < b)):
                stats.binom(sum(f(a, b) for a, b in two), len(two), 1 / 3,
                            "%s at positions %d and %d" % (what, j2, j))
    if not few:
        rec.note(s["how"], "large")
        rec.hard()
        return
    for x in perms:
        stats.binom(seen[x], len(lay), 1 / len(perms),
                    "layer arrangement %s" % (x,))
    same = sum(a == b for a, b in zip(lay[::2], lay[1::2]))
    stats.binom(same, len(lay) // 2, 1 / len(perms),
                "the same arrangement twice in a row")
    rec.note(s["how"], "arrangements=%d" % len(perms))
    rec.hard(len(perms) > 1)


def deep(s, rec):
    """Small layers, often enough to see a slight preference. The gates are
    told apart by their only permitted qubits."""
    prims = [UnitaryPrimitive(Unitary(2, UnitaryDefinitions.rx(
        0.3 + i).get_matrix(), "G%d" % i), [[i]]) for i in range(len(s["c"]))]
    counts = dict(zip(prims, s["c"]))
    items = [i for i, c in enumerate(s["c"]) for _ in range(c)]
    L, n = len(items), 26000
    np.random.seed(s["s"])
    ids = []
    while len(ids) < n * L:
        es = Compiler.create_random_layer(16, counts)
        ids += [e.get_apply_to()[0] for e in es]
    lay = [tuple(ids[i:i + L]) for i in range(0, len(ids), L)]
    perms = sorted(set(itertools.permutations(items)))
    seen = collections.Counter(lay)
    check(set(seen) <= set(perms), "layers", set(seen) - set(perms))
    for x in perms:
        stats.binom(seen[x], len(lay), 1 / len(perms),
                    "layer arrangement %s" % (x,))
    stats.multinomial([seen[x] for x in perms], [1 / len(perms)] * len(
        perms), "arrangements %s" % perms)
    for lag in (1, 2, 3):
        pairs = [(lay[j], lay[j + lag]) for j in range(len(lay) - lag)
                 if j // lag % 2 == 0]
        stats.binom(sum(a == b for a, b in pairs), len(pairs),
                    1 / len(perms), "the same arrangement %d layers apart"
                    % lag)
        stats.binom(sum(a[0] == b[0] for a, b in pairs), len(pairs),
                    sum((c / L) ** 2 for c in s["c"]),
                    "the same first gate %d layers apart" % lag)
    rec.note("arrangements=%d" % len(perms))
    rec.hard()


def proposals(s, rec):
    """Order of the layers added during layered compilation, decoded from
    the cost trace of a run that also removes layers."""
    w = Words(dict(s, r=0.0))
    res = w.run(s["steps"], s["s"])
    seen = []
    for before, dist, moves, after in decode(
            w.lt, w.target_m, list(res.cost_by_step)):
        if len(after) == len(before) + 1:
            seen.append(after[0] if after[1:] == before else after[-1])
    for j, (x, p, _) in enumerate(w.lt.letters):
        stats.binom(sum(y == j for y in seen), len(seen), p,
                    "proposing layer %s" % (x,))
    rec.hard(len(w.lt.letters) > 1 and len(seen) > 20)


@st.composite
def proposal_specs(draw):
    s = draw(letter_specs(120))
    s["lay"] = True
    s.pop("w", None)
    if len(s["g"]) == 1:
        s["g"].append(draw(seeds))
    s["c"] = [1] * len(s["g"])
    if len(s["g"]) == 2:
        s["c"][draw(st.integers(0, 1))] = draw(st.integers(1, 2))
    return s


SUBS = [
    Sub("compiled", problems(layered=True, max_steps=40), compiled, 260),
    Sub("rav", rav_specs(), rav, 200),
    Sub("deep", st.fixed_dictionaries(dict(
        s=seeds, c=st.sampled_from([[1, 1, 1], [2, 1], [1, 1], [2, 2], [1, 1, 1, 1],
                           [3, 1], [1, 1, 2]]))), deep, 12),
    Sub("order", order_specs(), order, 24),
    Sub("proposals", proposal_specs(), proposals, 18),
]
