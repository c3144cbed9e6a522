import collections
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..comp import (Compiler, letter_specs, Words, decode, weights, probs)
from ..gen import (CUST, Prim, fl, seeds, placements, qubits_of, Unitary,
                   UnitaryPrimitive)

from stoqcompiler.verification import Verification

RULE = ("gate set with distinct names, generated ranges, placements and "
        "probabilities, sampled hundreds to thousands of times; exact "
        "binomial and Kolmogorov-Smirnov tests at level 1e-11; non-trivial: "
        "at least two primitives, placements or a parameter to choose")


@st.composite
def sets(draw):
    # one in four sets is large in one respect
    big = draw(st.sampled_from([None] * 9 + ["system", "set", "lists"]))
    n = draw(st.sampled_from([5, 6] if big == "system" else
                             [3, 4] if big == "lists" else [2, 3, 1, 4]))
    k = draw(st.integers(5, 10) if big == "set" else
             st.integers(1, 2) if big else st.integers(1, 4))
    ps = []
    for _ in range(k):
        kind = draw(st.sampled_from(
            [c for c in CUST if CUST[c][0] <= n]))
        ar, nv, _f = CUST[kind]
        rng = []
        for _ in range(nv):
            lo = draw(fl(-4, 4))
            rng.append([lo, lo + draw(st.sampled_from([1.0, 2.5, 6.0])),
                        draw(st.booleans())])
        a = draw(st.one_of(
            st.none(), st.lists(placements(n, ar), max_size=4))
            if big != "lists" else
            st.lists(placements(n, ar), min_size=5, max_size=12))
        ps.append(dict(k=kind, r=rng, a=a))
    if not any(p["a"] is None or p["a"] for p in ps):
        ps[0]["a"] = None
    return dict(n=n, ps=ps, w=weights(draw, ps), s=draw(seeds))


def laws(s, prims):
    """Expected probability of each primitive and of each placement."""
    w = s["w"] or [1] * len(prims)
    w = [x if p.usable else 0 for x, p in zip(w, prims)]
    pp = [x / sum(w) for x in w]
    qp = []
    for p in prims:
        if p.allowed is None:
            al = list(itertools.permutations(range(s["n"]), p.arity))
        else:
            al = [tuple(q) for q in p.allowed]
        c = collections.Counter(al)
        qp.append({q: c[q] / len(al) for q in c})
    return pp, qp


def judge(s, prims, entries, what, pp=None):
    d = 2 ** s["n"]
    if pp is None:
        pp, qp = laws(s, prims)
    else:
        qp = laws(s, prims)[1]
    seen = []
    for e in entries:
        u = e.get_full_unitary(d)
        idx = [i for i, p in enumerate(prims)
               if p.name == u.get_operation_name()]
        check(len(idx) == 1, what, "gate named", u.get_operation_name())
        i = idx[0]
        vals = prims[i].values(u)
        check(vals is not None, what, "gate without its parameters")
        seen.append((i, tuple(qubits_of(e, what)), vals))
    n = len(seen)
    for i, p in enumerate(prims):
        stats.binom(sum(x[0] == i for x in seen), n, pp[i],
                    "%s: primitive %d" % (what, i))
        mine = [x for x in seen if x[0] == i]
        for q in set(qp[i]) | {x[1] for x in mine}:
            stats.binom(sum(x[1] == q for x in mine), len(mine),
                        qp[i].get(q, 0.0), "%s: primitive %d on qubits %s"
                        % (what, i, list(q)))
        # coarser features, for placements too many to tell apart singly
        for j in range(p.arity):
            for q in range(s["n"]):
                stats.binom(sum(x[1][j] == q for x in mine), len(mine),
                            sum(v for k, v in qp[i].items() if k[j] == q),
                            "%s: qubit %d as number %d of primitive %d"
                            % (what, q, j, i))
        if p.arity > 1:
            for name, f in (("ascending", lambda q: q[0] < q[1]),
                            ("neighbouring", lambda q: abs(
                                q[0] - q[1]) == 1)):
                stats.binom(sum(f(x[1]) for x in mine), len(mine),
                            sum(v for k, v in qp[i].items() if f(k)),
                            "%s: %s qubits of primitive %d"
                            % (what, name, i))
        cols = list(zip(*[x[2] for x in mine])) if mine else []
        half = []
        for j, col in enumerate(cols):
            lo, hi = p.ranges[j]
            stats.uniform(col, lo, hi, "%s: parameter %d of primitive %d"
                          % (what, j, i))
            half.append([v < (lo + hi) / 2 for v in col])
        for a, b in itertools.combinations(range(len(half)), 2):
            stats.binom(sum(x and y for x, y in zip(half[a], half[b])),
                        len(mine), 0.25,
                        "%s: parameters %d and %d both low" % (what, a, b))
        for h in half[:1]:
            for q, pr in qp[i].items():
                stats.binom(sum(x and m[1] == q for x, m in zip(h, mine)),
                            len(mine), pr / 2, "%s: low parameter on qubits "
                            "%s" % (what, list(q)))
            stats.binom(sum(x and y for x, y in zip(h[::2], h[1::2])),
                        len(h) // 2, 0.25, what + ": consecutive low values")
        for j, col in enumerate(cols):
            lo, hi = p.ranges[j]
            if hi - lo > 1e-3:
                check(len(set(col)) == len(col), what, "primitive", i,
                      "repeats a value of parameter", j, "exactly")
    for size in (8, 40):
        if n >= 2 * size:
            for i in range(len(prims)):
                stats.dispersion([sum(x[0] == i for x in seen[a:a + size])
                                  for a in range(0, n - size + 1, size)],
                                 size, pp[i], "%s: counts of primitive %d"
                                 % (what, i))
    if n <= 1000:
        stats.lags([x[0] for x in seen], min(1.0, sum(x * x for x in pp)),
                   what + ": primitive")
    same = sum(x[0] == y[0] for x, y in zip(seen[::2], seen[1::2]))
    stats.binom(same, n // 2, min(1.0, sum(x * x for x in pp)),
                what + ": the same primitive twice in a row")
    return (sum(x > 0 for x in pp) > 1 or any(len(q) > 1 for q in qp)
            or any(p.ranges for p in prims))


def direct(s, rec):
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    d = 2 ** s["n"]
    np.random.seed(s["s"])
    lib = [p.lib for p in prims]
    pr = probs(s["w"])
    es = [Compiler.create_random_sequence_entry(d, lib) if pr is None else
          Compiler.create_random_sequence_entry(d, lib, pr)
          for _ in range(800)]
    rec.hard(judge(s, prims, es, "random gate"))
    rec.note("uniform" if pr is None else "weighted",
             "unusable" if any(not p.usable for p in prims) else "usable")


def in_compile(s, rec):
    """With append probability 1 and annealing rate 0 every proposed gate
    is kept, so the result lists the proposals."""
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    d = 2 ** s["n"]
    n = 110
    target = Unitary(d, O.product(
        [np.diag(np.exp(1j * np.arange(d) ** 2))], d))
    c = Compiler(d, [p.lib for p in prims], probs(s["w"]),
                 append_probability=1.0, annealing_rate=0.0)
    es = []
    for i in range(2):
        np.random.seed((s["s"] + i) % 2 ** 32)
        res = c.compile(target, None, n)
        es += res.compiled_sequence.get_sequence_entries()
    # gates were added at either end: their order is not the order drawn
    rng = np.random.RandomState(s["s"])
    es = [es[i] for i in rng.permutation(len(es))]
    rec.hard(judge(s, prims, es, "compiled gate"))


def in_rav(s, rec):
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    d = 2 ** s["n"]
    np.random.seed(s["s"])
    # a few long sequences, or many short ones
    calls = (3, 72)[s["s"] % 2]
    es = []
    for _ in range(calls):
        res = Verification.generate_rav_sequence(
            d, [p.lib for p in prims], 360 // calls, 0.0,
            unitary_primitive_probabilities=probs(s["w"]))
        es += res.compiled_sequence.get_sequence_entries()
    check(len(es) == 360, "RAV gave", len(es), "gates of 360")
    rec.hard(judge(s, prims, es, "RAV gate"))
    if calls > 3:
        pp, size = laws(s, prims)[0], 360 // calls
        for j in range(size):
            at = [e.get_full_unitary(d).get_operation_name()
                  for e in es[j::size]]
            for i, p in enumerate(prims):
                stats.binom(at.count(p.name), calls, pp[i],
                            "RAV gate number %d: primitive %d" % (j, i))
    rec.note("calls=%d" % calls)


def in_layer(s, rec):
    prims = [Prim(p, i) for i, p in enumerate(s["ps"])]
    use = [p for p in prims if p.usable]
    d = 2 ** s["n"]
    np.random.seed(s["s"])
    counts = {p.lib: 2 for p in use}
    es = []
    for _ in range(150):
        layer = list(Compiler.create_random_layer(d, counts))
        es += layer
    for p in use:
        mine = [e for e in es if e.get_full_unitary(
            d).get_operation_name() == p.name]
        check(len(mine) == 300, "150 layers hold", len(mine), p.name)
        # within one layer the two gates of a primitive are shuffled
        rec.hard(judge(dict(s, w=None), prims, mine, "gate of a layer",
                       [float(q is p) for q in prims]))


def proposals(s, rec):
    """The gates proposed at each step of a compilation that also removes,
    decoded from its cost trace."""
    w = Words(dict(s, r=0.0, lay=False))
    res = w.run(s["steps"], s["s"])
    seen = []
    for before, dist, moves, after in decode(
            w.lt, w.target_m, list(res.cost_by_step)):
        if len(after) == len(before) + 1:
            seen.append(after[0] if after[1:] == before else after[-1])
    for j, (x, p, _) in enumerate(w.lt.letters):
        stats.binom(sum(y == j for y in seen), len(seen), p,
                    "proposing gate %s" % w.names[x[0]])
    rec.hard(len(w.lt.letters) > 1 and len(seen) > 20)


@st.composite
def proposal_specs(draw):
    s = draw(letter_specs(150))
    s["lay"] = False
    if len(s["g"]) == 1:
        s["g"].append(draw(seeds))
    s["w"] = draw(st.sampled_from([None, [3, 1], [1, 8], [1, 0]]))
    if s["w"] is not None:
        s["w"] = s["w"] + [1] * (len(s["g"]) - 2)
    return s


def rare(s, rec):
    """Probabilities far apart."""
    n = 14000
    k = len(s["w"])
    prims = [UnitaryPrimitive(Unitary(2, None, "G%d" % i))
             for i in range(k)]
    pr = np.array(s["w"]) / sum(s["w"])
    np.random.seed(s["s"])
    ids = [Compiler.create_random_sequence_entry(
        2, prims, list(pr)).get_full_unitary(2).get_operation_name()
        for _ in range(n)]
    for i in range(k):
        stats.binom(ids.count("G%d" % i), n, pr[i], "random gate: primitive "
                    "%d of probability %.4f" % (i, pr[i]))
    stats.multinomial([ids.count("G%d" % i) for i in range(k)], pr,
                      "primitives")
    rec.hard()


def places(s, rec):
    """Placements, often enough to see a slight preference."""
    n, k = s["n"], s["k"]
    g = UnitaryPrimitive(Unitary(2 ** k, None, "G"))
    np.random.seed(s["s"])
    at = [tuple(int(q) for q in e.get_apply_to()) for e in (
        Compiler.create_random_sequence_entry(2 ** n, [g])
        for _ in range(9000))]
    al = list(itertools.permutations(range(n), k))
    seen = collections.Counter(at)
    check(set(seen) <= set(al), "placed on", set(seen) - set(al))
    for q in al:
        stats.binom(seen[q], len(at), 1 / len(al), "qubits %s" % (q,))
    stats.multinomial([seen[q] for q in al], [1 / len(al)] * len(al),
                      "placements")
    same = sum(a == b for a, b in zip(at[::2], at[1::2]))
    stats.binom(same, len(at) // 2, 1 / len(al), "the same placement twice")
    rec.note("n=%d k=%d" % (n, k))
    rec.hard()


SUBS = [
    Sub("places", st.sampled_from([(3, 3), (3, 2), (2, 2), (4, 3), (5, 2),
                                   (4, 1), (4, 4), (6, 1)]).flatmap(
        lambda x: st.fixed_dictionaries(dict(
            n=st.just(x[0]), k=st.just(x[1]), s=seeds))), places, 8),
    Sub("rare", st.fixed_dictionaries(dict(s=seeds, w=st.lists(
        st.sampled_from([1, 1000, 3, 300, 0, 7.5, 30]), min_size=2,
        max_size=6).filter(lambda w: sum(x > 0 for x in w) > 1))), rare, 6),
    Sub("direct", sets(), direct, 36),
    Sub("in_compile", sets(), in_compile, 12),
    Sub("in_rav", sets(), in_rav, 18),
    Sub("in_layer", sets(), in_layer, 18),
    Sub("proposals", proposal_specs(), proposals, 16),
]
