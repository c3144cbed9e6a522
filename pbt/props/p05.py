import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, rejected
from .. import oracle as O, stats
from ..gen import (fl, seeds, hspecs, herm, same, check_params, TWO_PI,
                   ParameterizedUnitary, ParameterizedUnitaryParameter,
                   ParameterizedUnitaryDefinitions as PUD,
                   UnitaryDefinitions as UD)

RULE = ("parameterized gates with 0..4 parameters, generated ranges "
        "(degenerate, negative, huge) and values (ends, next to the ends, "
        "outside); non-trivial: at least one parameter with a range of "
        "positive length")


@st.composite
def ranges(draw):
    lo = draw(st.one_of(fl(-10, 10), st.sampled_from(
        [0.0, -math.pi, 0, -3, 1e-9]), fl(-1e4, 1e4)))
    w = draw(st.one_of(fl(0.0, 10.0), st.sampled_from(
        [0.0, TWO_PI, 1e-9, 1, 2]), fl(0, 1e4)))
    return [lo, lo + w, draw(st.booleans())]


@st.composite
def custom_specs(draw):
    n = draw(st.sampled_from([1, 2, 3, 0, 4]))
    rs = [draw(ranges()) for _ in range(n)]
    vs = []
    for _ in range(draw(st.integers(1, 3))):
        vs.append([draw(st.one_of(fl(0, 1), st.sampled_from([0.0, 1.0])))
                   for _ in range(n)])
    if draw(st.booleans()):
        # close to an earlier evaluation, in some or all values
        vs.append([min(1.0, max(0.0, x + draw(st.sampled_from(
            [0.0, 1e-7, -1e-7, 1e-5, -1e-4])))) for x in vs[0]])
    return dict(r=rs, v=vs, bad=draw(st.integers(0, 7)),
                how=draw(st.sampled_from(["list", "array"])),
                far=draw(st.one_of(st.just(0.0), fl(1e-9, 1e6))),
                d=draw(st.sampled_from([2, 2, 4])),
                box=draw(st.sampled_from(["list", "array"])))


P = [np.kron(O.X, O.I2), np.kron(O.Z, O.Y), np.kron(O.I2, O.X),
     np.kron(O.Y, O.Z)]
Q = [O.X, O.Y, O.Z, O.X]


def at(lo, hi, x):
    return lo if x == 0.0 else hi if x == 1.0 else min(
        max(lo + (hi - lo) * x, lo), hi)


def custom(s, rec):
    d = s["d"]
    gens = Q if d == 2 else P
    seen = []

    def ref(*a):
        m = np.eye(d, dtype=complex)
        for i, x in enumerate(a):
            m = O.rot(gens[i], (i + 1) * x) @ m
        return m

    def matrix(*a):
        seen.append(tuple(float(x) for x in a))
        return ref(*a)

    ps = [ParameterizedUnitaryParameter("p%d" % i, r[0], r[1], r[2])
          for i, r in enumerate(s["r"])]
    if s["box"] == "array":
        arr = np.empty(len(ps), dtype=object)
        arr[:] = ps
        g = ParameterizedUnitary(d, matrix, arr, "P")
    else:
        g = ParameterizedUnitary(d, matrix, ps, "P")
    check(g.get_dimension() == d and g.get_operation_name() == "P",
          "dimension or name of the parameterized gate")
    check([p.get_parameter_name() for p in g.get_parameters()]
          == ["p%d" % i for i in range(len(ps))], "parameter names")
    for i, r in enumerate(s["r"]):
        p = ps[i]
        check(bool(p.get_is_angle()) == r[2], "angle flag")
        for v in (r[0], r[1], (r[0] + r[1]) / 2):
            check(bool(p.is_valid(v)), "in-range value", v, "invalid in", r)
        lo2, hi2 = np.nextafter(r[0], -np.inf), np.nextafter(r[1], np.inf)
        for v in (lo2, hi2, r[0] - 1, r[1] + 1, float("nan"),
                  float("inf"), -float("inf")):
            check(not p.is_valid(v), "out-of-range value", v, "valid in", r)
    wrap = list if s["how"] == "list" else np.array
    used = None
    for row in s["v"]:
        vals = [at(r[0], r[1], x) for r, x in zip(s["r"], row)]
        del seen[:]
        u = g.as_unitary(wrap(vals))
        check(len(seen) > 0 and all(
            a == tuple(float(v) for v in vals) for a in seen),
            "matrix function called with", seen[:2], "for values", vals)
        same(u, ref(*vals), "parameterized gate", 1e-9)
        check(u.get_operation_name() == "P", "name")
        check_params(u, [["p%d" % i, v, r[2]] for i, (v, r) in enumerate(
            zip(vals, s["r"]))], "parameterized gate")
        # anything out of range or of the wrong length is refused
        if vals:
            i = s["bad"] % len(vals)
            lo, hi = s["r"][i][0], s["r"][i][1]
            for v in (min(np.nextafter(lo, -np.inf), lo - s["far"]),
                      max(np.nextafter(hi, np.inf), hi + s["far"]),
                      float("nan"), float("inf"), -float("inf")):
                bad = list(vals)
                bad[i] = v
                check(rejected(lambda: g.as_unitary(wrap(bad))),
                      "value", v, "accepted for range", (lo, hi))
            check(rejected(lambda: g.as_unitary(wrap(vals[:-1]))),
                  "too few values accepted")
        if used is None:
            used, first = wrap([float(v) for v in vals]), (u, ref(*vals))
        else:
            used[:] = vals
        # the caller's own container, filled anew for each evaluation
        del seen[:]
        u2 = g.as_unitary(used)
        same(u2, ref(*vals), "parameterized gate, container used again",
             1e-9)
        check_params(u2, [["p%d" % i, v, r[2]] for i, (v, r) in enumerate(
            zip(vals, s["r"]))], "parameterized gate")
        same(first[0], first[1], "earlier evaluation", 1e-9)
        extra = vals + [vals[-1] if vals else 0.0]
        check(rejected(lambda: g.as_unitary(wrap(extra))),
              "too many values accepted")
    rec.note("params=%d" % len(ps))
    rec.hard(any(r[1] > r[0] for r in s["r"]))


@st.composite
def builtin_specs(draw):
    k = draw(st.sampled_from(["rxy", "rxyz", "xx", "gms", "te"]))
    w = draw(st.sampled_from([0.0, 1e-7, 1e-6, 1e-4, -1e-5]))
    s = dict(k=k, w=w, v=[draw(st.one_of(
        fl(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25])))
        for _ in range(3)])
    if k == "gms":
        s["n"] = draw(st.sampled_from([2, 3, 1, 4, 5]))
    if k == "te":
        s["h"] = draw(hspecs(draw(st.integers(1, 3))))
        a = draw(fl(-5, 5))
        s["r"] = [a, a + draw(st.one_of(fl(0, 8), st.just(0.0)))]
        s["x"] = draw(st.sampled_from(["", "3", "0+1"]))
    return s


def builtin(s, rec):
    k = s["k"]
    names = {"rxy": ["theta", "phi"], "rxyz": ["alpha", "beta", "gamma"],
             "xx": ["theta"], "gms": ["theta"], "te": ["t"]}[k]
    lo, hi = s.get("r", [0.0, TWO_PI])
    vals = [at(lo, hi, x) for x in s["v"][:len(names)]]
    std = None
    if k == "rxy":
        g, m, name = PUD.rotation_xy(), O.rphi(*vals), "Rxy"
        std = UD.rphi(*vals)
    elif k == "rxyz":
        g, m, name = PUD.rotation_xyz(), O.rxyz(*vals), "Rxyz"
        std = UD.rz(vals[2]).left_multiply(UD.ry(vals[1])).left_multiply(
            UD.rz(vals[0]))
    elif k == "xx":
        g, m, name, std = PUD.xx(), O.xx(*vals), "XX", UD.xx(*vals)
    elif k == "gms":
        n = s["n"]
        g, m, name = PUD.gms(n), O.gms(n, *vals), "GMS%d" % n
        std = UD.gms(n, *vals)
    else:
        h = herm(s["h"])
        g = PUD.time_evolution(h, lo, hi, s["x"])
        m, name = O.evolve(h, vals[0]), "H" + s["x"]
        std = UD.time_evolution(h, vals[0], s["x"])
    check(g.get_dimension() == len(m), "dimension", g.get_dimension())
    check(g.get_operation_name() == name, "name", g.get_operation_name())
    ps = g.get_parameters()
    check([p.get_parameter_name() for p in ps] == names, "parameter names")
    for p in ps:
        check(bool(p.get_is_angle()) == (k != "te"), "angle flag")
        for v, ok in ((lo, True), (hi, True),
                      (np.nextafter(lo, -9e9), False),
                      (np.nextafter(hi, 9e9), False),
                      ((lo + hi) / 2, True)):
            check(bool(p.is_valid(v)) == ok, "validity of", v, "in",
                  (lo, hi), "should be", ok)
    if s.get("w"):
        # an evaluation nearby must not stand in for this one
        g.as_unitary([at(lo, hi, min(1.0, max(0.0, x + s["w"])))
                      for x in s["v"][:len(names)]])
    u = g.as_unitary(vals)
    same(u, m, name)
    same(u, std.get_matrix(), name + " versus the standard gate")
    check(u.get_operation_name() == name, "name", u.get_operation_name())
    check_params(u, [[n, v, k != "te"] for n, v in zip(names, vals)], name)
    for i in range(len(vals)):
        for v in (np.nextafter(lo, -9e9), np.nextafter(hi, 9e9), hi + 1,
                  lo - 1):
            bad = list(vals)
            bad[i] = v
            check(rejected(lambda: g.as_unitary(bad)), name, "accepted", v,
                  "outside", (lo, hi))
    rec.note(k)
    rec.hard(hi > lo)


def sampling(s, rec):
    lo, hi, isang = s["r"]
    p = ParameterizedUnitaryParameter("p", lo, hi, isang)
    np.random.seed(s["s"])
    n = s["n"]
    vals = [p.random_value() for _ in range(n)]
    for v in vals:
        check(lo <= v <= hi and p.is_valid(v), "random value", v,
              "outside", (lo, hi))
    if hi - lo > 1e-6 * max(1.0, abs(lo), abs(hi)):
        stats.uniform(vals, lo, hi, "random parameter values")
        # consecutive values are independent: pairs fill the square
        x = (np.array(vals) - lo) / (hi - lo)
        cnt = int(np.sum((x[::2] < 0.5) & (x[1::2] < 0.5)))
        stats.binom(cnt, n // 2, 0.25, "two consecutive low values")
        rec.hard()


SUBS = [
    Sub("custom", custom_specs(), custom, 1500),
    Sub("builtin", builtin_specs(), builtin, 900),
    Sub("sampling", st.fixed_dictionaries(dict(
        r=ranges(), s=seeds, n=st.sampled_from([600] * 5 + [9000]))),
        sampling, 150),
]
