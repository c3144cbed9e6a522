import math
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import mspecs, mat, fl, seeds, Unitary

RULE = ("pairs of operations at a controlled distance (equal up to phase, "
        "tiny, moderate, orthogonal) and thresholds at both ends, at and "
        "around the distance; non-trivial: dimension > 1 and distance above "
        "1e-12 or a threshold at an end")

dims = st.sampled_from([2, 4, 3, 2, 4, 5, 6, 8, 16, 1, 2, 4, 3, 8, 7, 32,
                        2, 4, 3, 2, 64])
BOXES = ["plain", "plain", "fortran", "strided", "readonly", "transposed"]
eps = st.one_of(st.just(0.0), fl(-9, -2).map(lambda x: 10.0 ** x),
                fl(0.01, 3.2), st.sampled_from(
                    [1e-4, 1.4e-4, 3e-5, 1e-5, 1e-8]))
# relative offsets of the threshold from its critical value 1 - distance
offsets = st.one_of(
    st.tuples(st.just("abs"), fl(-12, -0.5).map(lambda x: 10.0 ** x)),
    st.tuples(st.just("neg"), fl(-12, -0.5).map(lambda x: 10.0 ** x)),
    st.tuples(st.just("set"), st.sampled_from(
        [0.0, 1.0, 0.5, 0.9, 0.99, 0.999, 1 - 1e-9, 1 - 1e-6, 1e-9])
        | fl(0, 1)),
    st.just(("none", 0.0)))


@st.composite
def pairs(draw):
    d = draw(dims)
    a = draw(mspecs(d))
    if draw(st.integers(0, 3)) == 0:
        b = dict(k="any", m=draw(mspecs(d)))
    else:
        b = dict(k="near", e=draw(eps), s=draw(seeds), ph=draw(fl(-7, 7)))
    return dict(a=a, b=b, box=draw(st.sampled_from(BOXES)), t=[list(x) for x in draw(
        st.lists(offsets, min_size=1, max_size=6))], w=draw(mspecs(d)))


def other(a, s):
    if s["k"] == "any":
        return mat(s["m"])
    d = len(a)
    rs = np.random.RandomState(s["s"])
    h = rs.normal(size=(d, d)) + 1j * rs.normal(size=(d, d))
    h = h + h.conj().T
    h = h - np.trace(h) / d * np.eye(d)
    h = h / max(np.linalg.norm(h), 1e-300) * math.sqrt(d)
    return np.exp(1j * s["ph"]) * (a @ O.evolve(h, s["e"]))


def boxed(m, how):
    """The same matrix in another storage layout."""
    if how == "fortran":
        return np.asfortranarray(m)
    if how == "transposed":
        return np.ascontiguousarray(m.T).T
    if how == "strided":
        big = np.zeros((2 * len(m), 2 * len(m)), dtype=complex)
        big[::2, ::2] = m
        return big[::2, ::2]
    m = m.copy()
    if how == "readonly":
        m.setflags(write=False)
    return m


def expected(dist, t):
    """True / False / None (within rounding of the boundary)."""
    if t is None:
        if dist < 5e-9:
            return True
        return False if dist > 2e-8 else None
    if dist <= 1 - t - 1e-9:
        return True
    return False if dist > 1 - t + 2e-8 else None


def distance(s, rec):
    a = mat(s["a"])
    b = other(a, s["b"])
    w = mat(s["w"])
    d = len(a)
    ua, ub, uw = Unitary(d, a), Unitary(d, b), Unitary(d, w)
    want = O.dist(a, b)
    bm, am = boxed(b, s["box"]), boxed(a, s["box"])
    kept = bm.copy()
    got = ua.distance_from(ub)
    check(isinstance(got, (float, np.floating)), "distance is", type(got))
    for what, g in (
            ("distance", got), ("distance reversed", ub.distance_from(ua)),
            ("distance from matrix", ua.distance_from(bm)),
            ("distance from matrix reversed", ub.distance_from(am)),
            ("distance of left products",
             ua.left_multiply(uw).distance_from(ub.left_multiply(uw))),
            ("distance of right products",
             ua.right_multiply(uw).distance_from(ub.right_multiply(uw))),
            ("distance of inverses",
             ua.inverse().distance_from(ub.inverse()))):
        check(abs(g - want) < 1e-9, what, "is", g, "expected", want)
        check(-1e-9 <= g <= 1 + 1e-9, what, "is", g)
    check(abs(ua.distance_from(ua)) < 1e-9, "self distance",
          ua.distance_from(ua))
    if want > 1e-6:
        check(got > 1e-7, "different operations at distance", got)
    results = []
    for kind, x in s["t"] + [["set", 1.0], ["none", 0]]:
        t = None if kind == "none" else (
            x if kind == "set" else
            1 - want + (x if kind == "abs" else -x))
        if t is not None:
            t = min(1.0, max(0.0, t))
        exp = expected(want, t)
        for what, g in (("close_to", ua.close_to(ub, t)),
                        ("close_to reversed", ub.close_to(ua, t)),
                        ("close_to matrix", ua.close_to(bm, t))):
            if exp is not None:
                check(bool(g) == exp, what, "at threshold", t, "is", g,
                      "at distance", want)
        r = bool(ua.close_to(ub, t))
        if t is None:
            check(bool(ua.close_to(ub)) == r, "default threshold is not none")
            check(bool(ua.close_to(ub, 1.0)) == r,
                  "threshold 1 and none disagree at distance", want)
        else:
            results.append((t, r))
        check(ua.close_to(ua, t), "not close to itself at threshold", t)
        check(ua.close_to(Unitary(d, np.exp(0.7j) * a), t),
              "not close to a phase-shifted copy at threshold", t)
    check(np.array_equal(bm, kept), "the matrix was modified")
    results.sort()
    for (t1, r1), (t2, r2) in zip(results, results[1:]):
        check(r1 or not r2, "close at threshold", t2, "but not at", t1)
    rec.note("d=%d" % d, s["box"], "dist~1e%d" % (
        math.floor(math.log10(want)) if want > 1e-12 else -99))
    rec.note(*["t=%s" % k for k, _ in s["t"]])
    rec.hard(d > 1 and (want > 1e-12 or any(
        k == "set" and x in (0.0, 1.0) or k == "none" for k, x in s["t"])))


@st.composite
def series_specs(draw):
    d = draw(st.sampled_from([2, 4, 3, 8]))
    return dict(a=draw(mspecs(d)), ms=draw(st.lists(
        mspecs(d), min_size=2, max_size=5)), how=draw(st.lists(
            st.sampled_from(["array", "object", "fresh", "kept", "inverse"]),
            min_size=4, max_size=20)), p=draw(seeds))


def series(s, rec):
    """Many distances of one operation, from an array refilled each time,
    from short-lived arrays and objects, and from ones asked before."""
    a = mat(s["a"])
    d = len(a)
    u = Unitary(d, a)
    ms = [mat(m) for m in s["ms"]]
    buf = np.empty((d, d), dtype=complex)
    kept = [Unitary(d, m) for m in ms]
    rs = np.random.RandomState(s["p"])
    for how in s["how"]:
        i = rs.randint(len(ms))
        want = O.dist(a, ms[i])
        if how == "array":
            buf[...] = ms[i]
            got = u.distance_from(buf), u.close_to(buf)
        elif how == "object":
            got = (u.distance_from(Unitary(d, ms[i])),
                   u.close_to(Unitary(d, ms[i])))
        elif how == "fresh":
            got = u.distance_from(ms[i].copy()), u.close_to(ms[i].copy())
        elif how == "kept":
            got = u.distance_from(kept[i]), u.close_to(kept[i])
        else:
            got = (u.inverse().distance_from(kept[i].inverse()),
                   u.inverse().close_to(kept[i].inverse()))
        check(abs(got[0] - want) < 1e-9, "distance (%s)" % how, "is",
              got[0], "expected", want, "after other distances")
        exp = expected(want, None)
        check(exp is None or bool(got[1]) == exp, "close_to (%s)" % how,
              "is", got[1], "at distance", want)
    rec.note(*s["how"])
    rec.hard(len(set(s["how"])) > 1)


SUBS = [Sub("distance", pairs(), distance, 1800),
        Sub("series", series_specs(), series, 250)]
