import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..comp import (problems, Problem, check_trace, expected, thresholds,
                    Compiler, timed)
from ..gen import (Guard, Prim, fl, seeds, mspecs, mat, Unitary, UnitaryPrimitive,
                   ParameterizedUnitaryDefinitions as PUD, ParameterizedUnitary,
                   ParameterizedUnitaryParameter)

RULE = ("compilation problems (gate set with placements, probabilities or "
        "layer counts, target, threshold, budget, append probability, "
        "annealing rate, seed); non-trivial: at least two steps were taken")


def contract(s, rec):
    p = Problem(s, Guard())
    res = p.run()
    t = s["t"]
    prod, dist = check_trace(res, p.m, p.d, t, s["steps"])
    steps = len(res.cost_by_step)
    empty = O.dist(np.eye(p.d), p.m)
    if expected(empty, t) is True or s["steps"] == 0:
        check(steps == 0 and res.compiled_sequence.get_length() == 0,
              "took", steps, "steps for a target reached by the empty "
              "sequence, threshold", t)
    per = 1 if p.counts is None else sum(p.counts)
    check(res.compiled_sequence.get_length() <= steps * per,
          "sequence of", res.compiled_sequence.get_length(), "gates after",
          steps, "steps")
    rec.note("layered" if p.counts else "plain",
             "reached" if expected(dist, t) else "budget", "n=%d" % p.n,
             "t=%s" % (t if t in (None, 0, 1) else "between"))
    rec.hard(steps >= 2)


def reuse(s, rec):
    """The contract holds for every use of one compiler, not the first."""
    p = Problem(s, Guard())
    for i, (t, steps) in enumerate(s["uses"]):
        res = p.run(steps=steps, threshold=[t], seed=s["s"] + i)
        check_trace(res, p.m, p.d, t, steps, "use %d" % (i + 1))
        rec.hard(i > 0 and len(res.cost_by_step) >= 2)


@st.composite
def reuse_specs(draw):
    s = draw(problems())
    s["s"] = s["s"] % (2 ** 32 - 10)
    s["uses"] = [list(x) for x in draw(st.lists(st.tuples(
        thresholds, st.integers(0, 20)), min_size=2, max_size=4))]
    return s


@st.composite
def stop_specs(draw):
    n = draw(st.sampled_from([1, 2]))
    return dict(n=n, s=draw(seeds), t=draw(fl(0.3, 0.85) if n == 1
                                           else fl(0.2, 0.45)),
                m=draw(mspecs(2 ** n)), lay=draw(st.booleans()))


def unbounded(s, rec):
    """Without a step budget, compilation still stops at the threshold:
    one that is reached in tens of steps; 20000 gates are a work bound."""
    n, t = s["n"], s["t"]
    d = 2 ** n
    guard = Guard(20000)
    full = [0.0, 2 * np.pi, True]
    prims = [Prim(dict(k="c3", r=[full] * 3, a=None), 0, guard)]
    if n == 2:
        prims.append(Prim(dict(k="c4", r=[full], a=None), 1, guard))
    np.random.seed(s["s"])
    m = mat(s["m"])
    c = Compiler(d, [p.lib for p in prims])
    target = Unitary(d, m)
    if s["lay"]:
        res = c.compile_layered(target, {p.lib: 1 for p in prims}, t)
    else:
        res = c.compile(target, t)
    _, dist = check_trace(res, m, d, t, 10 ** 9)
    check(expected(dist, t) is not False, "stopped at distance", dist)
    rec.note("steps<%d" % 10 ** len(str(len(res.cost_by_step))))
    rec.hard(len(res.cost_by_step) >= 2)


@st.composite
def stall_specs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    return dict(n=n, k=draw(st.integers(1, 2)), s=draw(seeds), lay=draw(
        st.sampled_from([False, False, True])), steps=draw(
            st.sampled_from([1200, 700, 2500, 700, 1200, 5200] if n == 1
                            else [700, 500])),
        r=draw(st.sampled_from([50.0, 1e3, 1.0])), g=draw(
            st.sampled_from(["haar", "diag"])))


def stall(s, rec):
    """Gate sets that soon stop making progress: hundreds of steps without
    any change do not end the compilation before its budget."""
    n, d = s["n"], 2 ** s["n"]
    rng = np.random.RandomState(s["s"] % 2 ** 32)
    q = [list(range(n))]
    prims = []
    for i in range(s["k"]):
        m = (np.diag(np.exp(1j * rng.uniform(0, 6.3, d)))
             if s["g"] == "diag" else
             mat(dict(k="haar", d=d, s=int(rng.randint(10 ** 6)))))
        prims.append(UnitaryPrimitive(Unitary(d, m, "G%d" % i), q))
    m = mat(dict(k="haar", d=d, s=int(rng.randint(10 ** 6))))
    c = Compiler(d, prims, annealing_rate=s["r"])
    np.random.seed(s["s"])
    res = timed(lambda: c.compile_layered(
        Unitary(d, m), {p: 1 for p in prims}, 0.9999, s["steps"])
        if s["lay"] else c.compile(Unitary(d, m), 0.9999, s["steps"]))
    check_trace(res, m, d, 0.9999, s["steps"])
    cost = list(res.cost_by_step)
    run = best = 0
    for a, b in zip(cost, cost[1:]):
        run = run + 1 if abs(a - b) < 1e-12 else 0
        best = max(best, run)
    rec.note("unchanged for %d00 steps" % (best // 100))
    rec.hard(best >= 100)


@st.composite
def reach_specs(draw):
    return dict(k=draw(st.sampled_from(["rxyz", "rxy", "pair"])),
                m=draw(mspecs(2)), s=draw(seeds),
                t=draw(st.sampled_from([0.9, 0.9, 0.85, 0.8])))


def reach(s, rec):
    """One-qubit targets are reached with a continuous universal gate set;
    measured on the unmodified library: 0.9 is reached in about 40 steps,
    the slowest of hundreds of runs in about 400."""
    if s["k"] == "pair":
        prims = [UnitaryPrimitive(ParameterizedUnitary(
            2, lambda a, p=p: O.rot(p, a), [ParameterizedUnitaryParameter(
                "a", 0, 2 * np.pi, True)], "G%d" % i))
            for i, p in enumerate((O.X, O.Z))]
    else:
        prims = [UnitaryPrimitive(
            PUD.rotation_xy() if s["k"] == "rxy" else PUD.rotation_xyz())]
    m = mat(s["m"])
    np.random.seed(s["s"])
    res = Compiler(2, prims).compile(Unitary(2, m), s["t"], 6000)
    _, dist = check_trace(res, m, 2, s["t"], 6000)
    check(expected(dist, s["t"]) is not False, "6000 steps leave the target "
          "at distance", dist, "threshold", s["t"])
    n = len(res.cost_by_step)
    rec.note("steps<%d" % (10 ** len(str(n))))
    rec.hard(n >= 2)


@st.composite
def late_specs(draw):
    return dict(m=draw(mspecs(2)), s=draw(seeds),
                t=draw(st.sampled_from([0.98, 0.95, 0.985, 0.99])),
                lay=draw(st.sampled_from([0, 1, 1, 2])),
                ap=draw(st.sampled_from([0.5, 0.6, 0.7])))


def late(s, rec):
    """Random walks that come upon a small threshold after many steps stop
    at that very step."""
    full = [0.0, 2 * np.pi, True]
    prims = [Prim(dict(k="c3", r=[full] * 3, a=None), i)
             for i in range(max(1, s["lay"]))]
    c = Compiler(2, [p.lib for p in prims], append_probability=s["ap"],
                 annealing_rate=0.0)
    m = mat(s["m"])
    np.random.seed(s["s"])
    res = (c.compile_layered(Unitary(2, m), {p.lib: 1 for p in prims},
                             s["t"], 700) if s["lay"]
           else c.compile(Unitary(2, m), s["t"], 700))
    check_trace(res, m, 2, s["t"], 700)
    n = len(res.cost_by_step)
    rec.note("reached" if n < 700 else "budget", "steps<%d" % (
        10 ** len(str(n))))
    rec.hard(n >= 2)


SUBS = [
    Sub("contract", problems(), contract, 900),
    Sub("reuse", reuse_specs(), reuse, 120),
    Sub("unbounded", stop_specs(), unbounded, 30),
    Sub("stall", stall_specs(), stall, 30),
    Sub("late", late_specs(), late, 60),
    Sub("reach", reach_specs(), reach, 80),
]
