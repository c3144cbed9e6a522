import collections
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..comp import expected
from ..gen import fl, uf, seeds, mat
from ..ham import (hams, Ham, Hamiltonian, HamiltonianTerm, gate_matrices)

RULE = ("Hamiltonians of 1..4 terms (also equal and opposite ones) on 1..2 "
        "qubits, total times, maximum steps, thresholds, both modes and "
        "random states; non-trivial: at least two terms and two gates")

BUDGET = 10000


def subsets(k, sim):
    top = k if sim else 1
    return [c for r in range(1, top + 1)
            for c in itertools.combinations(range(k), r)]


def classify(h, ms, es, sim, mx, what):
    """The candidate subsets and recorded time of every gate."""
    subs = subsets(len(h.ms), sim)
    sums = {"H" + "+".join(map(str, c)): (
        c, np.sum([h.ms[i] for i in c], axis=0)) for c in subs}
    out = []
    for i, (m, e) in enumerate(zip(ms, es)):
        p = e.get_full_unitary(h.d).get_parameter_value("t")
        check(p is not None, what, "gate", i, "records no time")
        t = float(p[0])
        check(abs(t) <= mx * (1 + 1e-12), what, "gate", i, "lasts", t,
              "maximum step", mx)
        name = e.get_full_unitary(h.d).get_operation_name()
        check(name in sums, what, "gate", i, "is named", name, "which is no",
              "subset of terms" if sim else "single term")
        c, x = sums[name]
        check(O.phase_gap(m, O.evolve(x, t)) < 1e-9, what, "gate", i,
              "is no evolution for", t, "under terms", c)
        out.append(([c], t))
    return out


@st.composite
def specs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    s = draw(hams(sizes=(n,), max_terms=4 if n == 1 else 3, lo=0.4, hi=2.0,
                  commuting=False))
    s["t"] = draw(uf(-3, 3))
    s["mx"] = draw(st.sampled_from([1.0, 2.0, 0.5, 0.3] if n == 1
                                   else [1.0, 2.0]))
    s["delta"] = draw(st.sampled_from([0.5, 0.8, 0.3] if n == 1 else [0.3]))
    s["sim"] = draw(st.booleans())
    s["s"] = draw(seeds)
    return s


def finish(h, res, ms, prod, goal, th, rec):
    """The stop rule and the final cost of a compilation towards goal."""
    cost = list(res.cost_by_step)
    dist = O.dist(prod, goal)
    check(len(cost) <= BUDGET, "took", len(cost), "steps")
    if cost:
        check(abs(cost[-1] - dist) < 1e-6, "last cost", cost[-1],
              "but distance", dist)
    if expected(dist, th) is False:
        check(len(cost) == BUDGET, "stopped after", len(cost), "of", BUDGET,
              "steps at distance", dist, "threshold", th)
        rec.note("budget used")
    return cost, dist


def stoq(s, rec):
    h = Ham(s)
    goal = h.exact(s["t"])
    start = 1 - O.dist(np.eye(h.d), goal)
    th = min(0.97, start + s["delta"] * (1 - start))
    np.random.seed(s["s"])
    res = (h.lib.compile_stoq_sequence(s["t"], s["mx"], th, s["sim"])
           if s["sim"] or s["s"] % 2 else
           h.lib.compile_stoq_sequence(s["t"], s["mx"], th))
    ms, es, prod = gate_matrices(res.compiled_sequence, h.n, "STOQ")
    classify(h, ms, es, s["sim"], s["mx"], "STOQ")
    cost, dist = finish(h, res, ms, prod, goal, th, rec)
    lib = h.lib.get_time_evolution_operator(s["t"])
    if expected(dist, th):
        check(res.compiled_sequence.product().close_to(lib, th - 1e-6),
              "the library itself finds its result not close")
    if expected(1 - start, th):
        check(len(cost) == 0 and len(ms) == 0, "compiled", len(ms), "gates "
              "for an evolution the empty sequence already reaches")
    rec.note("simultaneous" if s["sim"] else "single", "n=%d" % h.n,
             "gates=%d" % min(9, len(ms)), "negative time" if s["t"] < 0
             else "positive time")
    rec.hard(len(h.ms) > 1 and len(ms) > 1)


@st.composite
def rav_specs(draw):
    s = draw(specs())
    s["t"] = draw(st.one_of(uf(1, 5), uf(1, 15), uf(3, 8),
                               st.sampled_from([0.0, -1.0, 0.3])))
    s["th"] = draw(st.sampled_from([0.95, 0.9, 0.97, 0.8] if s["n"] == 1
                                   else [0.6, 0.5, 0.65]))
    return s


def split(gates, total):
    """The random start: up to the gate that reaches the total time."""
    acc, k = 0.0, 0
    while acc < total:
        if k == len(gates):
            return None
        acc += abs(gates[k][1])
        k += 1
    return k


def rav(s, rec):
    h = Ham(s)
    np.random.seed(s["s"])
    res = h.lib.compile_rav_sequence(s["t"], s["mx"], s["th"], s["sim"])
    ms, es, prod = gate_matrices(res.compiled_sequence, h.n, "RAV")
    gates = classify(h, ms, es, s["sim"], s["mx"], "RAV")
    k = split(gates, s["t"])
    check(k is not None, "the absolute times of a RAV sequence sum to",
          sum(abs(t) for _, t in gates), "of the requested", s["t"])
    cost, dist = finish(h, res, ms, prod, np.eye(h.d), s["th"], rec)
    check(len(ms) - k <= len(cost), "RAV:", len(ms), "gates,", k,
          "of them random, after", len(cost), "steps")
    first = O.product(ms[:k], h.d)
    if expected(O.dist(first, np.eye(h.d)), s["th"]):
        check(len(ms) == k and not cost, "compiled", len(ms) - k, "gates "
              "although the random start is already close")
    rec.note("simultaneous" if s["sim"] else "single", "n=%d" % h.n,
             "start=%d" % min(9, k), "compiled=%d" % min(9, len(ms) - k))
    rec.hard(len(h.ms) > 1 and k > 1 and len(ms) > k)


@st.composite
def leg_specs(draw):
    s = draw(hams(sizes=(1, 2), max_terms=draw(st.sampled_from([4, 4, 6])),
                  lo=0.4, hi=2.0, commuting=False))
    s["mx"] = draw(st.one_of(st.sampled_from([0.3, 1.0, 2.0, 0.05]),
                             uf(0.05, 3)))
    s["N"] = draw(st.sampled_from([40, 100, 200]))
    s["sim"] = draw(st.booleans())
    s["s"] = draw(seeds)
    return s


def enough(m, least):
    """Draws after which every one of m equally likely names is seen, but
    for a chance below 1e-12."""
    return max(least, 2 + int(np.log(m * 1e12) / -np.log(1 - 1 / m))
               if m > 1 else least)


def tally(seen, names, mx, what, forward=None):
    """Presence of all that should occur, where absence by chance is
    beyond 1e-11 for a uniform choice."""
    n = len(seen)
    m = len(names)
    if m * (1 - 1 / m) ** n < 1e-12:
        for c in names:
            check(any(c in hit for hit, _ in seen), what, "never uses terms",
                  c, "in", n, "gates")
    if n > 130:
        neg = sum(t < 0 for _, t in seen)
        check(0 < neg < n, what, "has", neg, "backward gates of", n)
        top = max(abs(t) for _, t in seen) / mx
        check(top > 0.8, what, "has no step above", top, "of the maximum")
        if forward is not None and n > 300:
            check(n - neg > n / 2, what, "has only", n - neg, "forward "
                  "gates of", n)


def leg(s, rec):
    """The random start alone: threshold 0 accepts the empty inverse."""
    h = Ham(s)
    total = s["N"] * s["mx"] / 2
    np.random.seed(s["s"])
    seen = []
    names = subsets(len(h.ms), s["sim"])
    while len(seen) < enough(len(names), 320):
        res = h.lib.compile_rav_sequence(total, s["mx"], 0.0, s["sim"])
        ms, es, _ = gate_matrices(res.compiled_sequence, h.n, "random start")
        check(list(res.cost_by_step) == [], "threshold 0 has a cost trace")
        gates = classify(h, ms, es, s["sim"], s["mx"], "random start")
        k = split(gates, total)
        check(k == len(gates), "random start of", len(gates), "gates "
              "reaches its total time after", k)
        seen += gates
    tally(seen, names, s["mx"], "random start", forward=True)
    pos = [hit[0] for hit, t in seen if len(hit) == 1]
    rec.note("simultaneous" if s["sim"] else "single",
             "subsets=%d" % len(names))
    rec.hard(len(names) > 1 and len(pos) > 100)


@st.composite
def draw_specs(draw):
    k = draw(st.sampled_from([2, 3, 4, 1, 5]))
    return dict(v=[draw(st.lists(uf(-1, 1), min_size=3, max_size=3))
                   for _ in range(k)], n=draw(st.sampled_from([1, 1, 2])),
                s=draw(seeds), mx=draw(st.sampled_from([1.0, 0.5, 2.0])),
                sim=draw(st.booleans()))


def proposals(s, rec):
    """A target orthogonal to the empty sequence, and a threshold that any
    gate exceeds: runs of one gate that show the proposals."""
    vs = [np.array(v) + [1.0, 0, 0.2 * i] for i, v in enumerate(s["v"])]
    w = mat(dict(k="haar", d=2 ** s["n"], s=5)) if s["n"] == 2 else None
    ms = []
    for v in vs:
        m = v[0] * O.X + v[1] * O.Y + v[2] * O.Z
        if w is not None:
            m = w @ np.kron(np.eye(2), m) @ w.conj().T
            m = (m + m.conj().T) / 2
        ms.append(m)
    tot = float(np.linalg.norm(sum(vs)))
    if tot < 0.05 or min(np.linalg.norm(v) for v in vs) < 0.05:
        return
    h = Ham.__new__(Ham)
    h.n, h.d, h.ms = s["n"], 2 ** s["n"], ms
    h.lib = Hamiltonian([HamiltonianTerm(m.copy()) for m in ms])
    h.sum = sum(ms)
    np.random.seed(s["s"])
    seen = []
    names = subsets(len(ms), s["sim"])
    for _ in range(enough(len(names), 190)):
        res = h.lib.compile_stoq_sequence(
            np.pi / 2 / tot, s["mx"], 1e-7, s["sim"])
        a, es, _ = gate_matrices(res.compiled_sequence, h.n, "STOQ")
        seen += classify(h, a, es, s["sim"], s["mx"], "STOQ")[:1]
    tally(seen, names, s["mx"], "STOQ")
    rec.note("runs with a gate %d" % (len(seen) // 50 * 50))
    rec.hard(len(ms) > 1 and len(seen) > 150)


def budget(s, rec):
    """An unreachable threshold uses the 10000 steps."""
    h = Hamiltonian([HamiltonianTerm(s["c"] * O.X)])
    np.random.seed(s["s"])
    if s["rav"]:
        res = h.compile_rav_sequence(1.0, 1.0, 1.0)
    else:
        res = h.compile_stoq_sequence(1.0, 1.0, 1.0)
    m = O.product(gate_matrices(res.compiled_sequence, 1, "STOQ")[0], 2)
    n = len(res.cost_by_step)
    if n < BUDGET:
        goal = np.eye(2) if s["rav"] else O.evolve(s["c"] * O.X, 1.0)
        check(expected(O.dist(m, goal), 1.0) is not False, "stopped after",
              n, "of", BUDGET, "steps at distance", O.dist(m, goal))
    check(n <= BUDGET, "took", n, "steps")
    rec.hard()


@st.composite
def start_specs(draw):
    return dict(s=draw(seeds), c=draw(st.one_of(
        st.sampled_from([0.3, 1.0, 2.5, 0.7]), uf(0.2, 4))),
        mx=draw(st.sampled_from([1.0, 0.4, 3.0])),
        sim=draw(st.booleans()), N=1000)


def starts(s, rec):
    """The law of the random start: steps of uniformly random length up to
    the maximum, until their sum reaches the total."""
    h = Hamiltonian([HamiltonianTerm(m) for m in (O.X, 0.5 * O.Z)])
    total = s["c"] * s["mx"]
    rng = np.random.RandomState(12345)
    x = rng.random_sample((200000, 40))
    cum = np.cumsum(x, axis=1)
    check(cum[:, -1].min() > s["c"], "reference too short")
    ref_n = 1 + (cum < s["c"]).sum(axis=1)
    ref_over = np.sort(cum[np.arange(len(cum)), ref_n - 1] - s["c"])
    np.random.seed(s["s"])
    first, over, count = [], [], []
    for _ in range(s["N"]):
        res = h.compile_rav_sequence(total, s["mx"], 0.0, s["sim"])
        ts = [abs(e.get_full_unitary(2).get_parameter_value("t")[0])
              / s["mx"] for e in
              res.compiled_sequence.get_sequence_entries()]
        check(len(ts) > 0 and sum(ts[:-1]) < s["c"] <= sum(ts) + 1e-12,
              "random start of times", ts, "for the total", s["c"])
        first.append(ts[0])
        over.append(sum(ts) - s["c"])
        count.append(len(ts))
    stats.uniform(first, 0.0, 1.0, "first time of the random start")
    # two empirical laws: Dvoretzky-Kiefer-Wolfowitz for both
    eps = sum(np.sqrt(np.log(4 / stats.ALPHA) / (2 * k))
              for k in (len(over), len(ref_over)))
    over = np.sort(over)
    for a, b in ((over, ref_over), (count, ref_n)):
        pts = np.concatenate([a, [-1.0]])
        fa = np.searchsorted(np.sort(a), pts, side="right") / len(a)
        fb = np.searchsorted(np.sort(b), pts, side="right") / len(b)
        gap = np.max(np.abs(fa - fb))
        lo = np.max(np.abs(
            np.searchsorted(np.sort(a), pts, side="left") / len(a)
            - np.searchsorted(np.sort(b), pts, side="left") / len(b)))
        check(max(gap, lo) < eps, "the random start's",
              "excess over the total" if a is over else "number of steps",
              "is off its law by", max(gap, lo), "bound", eps)
    rec.note("simultaneous" if s["sim"] else "single")
    rec.hard()


SUBS = [
    Sub("stoq", specs(), stoq, 100),
    Sub("rav", rav_specs(), rav, 150),
    Sub("leg", leg_specs(), leg, 30),
    Sub("proposals", draw_specs(), proposals, 18),
    Sub("starts", start_specs(), starts, 8),
    Sub("budget", st.fixed_dictionaries(dict(
        c=uf(0.5, 2), s=seeds, rav=st.booleans())), budget, 2),
]
