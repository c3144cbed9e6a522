import math
import numpy as np
from hypothesis import strategies as st
from scipy import stats as ss
from ..core import Sub, check
from .. import oracle as O, stats
from ..gen import mspecs, mat, matrix_of, same, fl, seeds, Unitary

RULE = ("unitary matrices of dimension 1..128 (Haar, permutation, diagonal, "
        "Givens products, random global phase and storage type) or seeds for "
        "random operations; non-trivial: dimension > 1 and matrix not the "
        "identity")

dims = st.sampled_from([2, 4, 3, 2, 4, 5, 6, 7, 8, 9, 16, 32, 64, 1, 2, 4, 3,
                        2, 4, 5, 6, 7, 8, 10, 12, 15, 33, 50, 100, 128])


@st.composite
def faithful_specs(draw):
    d = draw(dims)
    kind = draw(st.sampled_from(
        ["c128", "c128", "c64", "int", "float", "fortran", "readonly",
         "strided", "noise", "tiny", "tiny"]))
    if kind == "int":
        return dict(kind=kind, m=dict(
            k="perm", d=d, p=list(draw(st.permutations(range(d)))),
            w=draw(st.lists(st.sampled_from([0, 2]), min_size=d,
                            max_size=d))))
    return dict(kind=kind, m=draw(mspecs(d)), s=draw(seeds))


def make(s):
    m = mat(s["m"])
    k = s["kind"]
    tol = 1e-9
    if k == "c64":
        # only exactly representable ones: the library accepts matrices
        # that are unitary to 1e-8
        if s["m"]["k"] == "perm":
            m = mat(dict(s["m"], g=0.0)).astype(np.complex64)
    elif k == "int":
        m = np.rint(m.real).astype(int)
    elif k == "float":
        # a real orthogonal matrix
        q, _ = np.linalg.qr(np.random.RandomState(s["s"]).normal(
            size=m.shape))
        m = q
    elif k == "fortran":
        m = np.asfortranarray(m)
    elif k == "strided":
        big = np.zeros((2 * len(m), 2 * len(m)), dtype=complex)
        big[::2, ::2] = m
        m = big[::2, ::2]
    elif k == "tiny":
        # entries of every small size, down to the rounding
        r = np.random.RandomState(s["s"])
        for _ in range(3):
            i, j = r.randint(len(m), size=2)
            if i != j:
                g = np.eye(len(m), dtype=complex)
                a, p = 10.0 ** r.uniform(-9, -3), np.exp(1j * r.uniform(7))
                g[i, i] = g[j, j] = math.cos(a)
                g[i, j] = math.sin(a) * p
                g[j, i] = -math.sin(a) * np.conj(p)
                m = g @ m
    elif k == "noise":
        r = np.random.RandomState(s["s"])
        m = m + 1e-10 * r.normal(size=m.shape)
        tol = 1e-8
    elif k == "readonly":
        m.setflags(write=False)
    return m, tol


def faithful(s, rec):
    m, tol = make(s)
    d = len(m)
    before = m.copy()
    u = Unitary(d, m)
    check(m.dtype == before.dtype and np.array_equal(m, before),
          "the caller's array was modified")
    a = matrix_of(u, d)
    gap = O.phase_gap(a, before)
    check(gap < tol, "matrix differs from the one given by", gap)
    dev = np.abs(a @ a.conj().T - np.eye(d)).max()
    check(dev < tol, "matrix is not unitary, off by", dev)
    det = np.linalg.det(a)
    check(abs(det - 1) < tol * 4 * d, "determinant is", det)
    # and rebuilding from its own matrix changes nothing
    same(Unitary(d, a), a, "rebuilt operation")
    rec.note(s["kind"], "d=%d" % d)
    rec.hard(d > 1 and O.phase_gap(before, np.eye(d)) > 1e-6)


@st.composite
def phase_specs(draw):
    return dict(m=draw(mspecs(draw(dims))),
                ph=draw(st.lists(fl(-10, 10) | st.sampled_from(
                    [math.pi, -math.pi, math.pi / 2, 2 * math.pi]),
                    min_size=1, max_size=4)))


def phases(s, rec):
    m = mat(s["m"])
    d = len(m)
    u = Unitary(d, m)
    for p in s["ph"]:
        v = Unitary(d, np.exp(1j * p) * m)
        same(v, m, "phase-shifted operation")
        for x, y in ((u, v), (v, u)):
            check(abs(x.distance_from(y)) < 1e-9,
                  "distance between phase-shifted copies is",
                  x.distance_from(y))
            check(x.close_to(y), "phase-shifted copies are not close")
    rec.note("d=%d" % d)
    rec.hard(d > 1 and any(abs(math.sin(p)) > 1e-3 for p in s["ph"]))


def identity(s, rec):
    d = s["d"]
    for u in (Unitary(d), Unitary.identity(d), Unitary(dimension=d,
                                                       matrix=None)):
        a = matrix_of(u, d)
        check(O.phase_gap(a, np.eye(d)) < 1e-9, "not the identity")
    rec.hard(d > 1)


@st.composite
def random_specs(draw):
    return dict(d=draw(st.sampled_from([1, 2, 3, 4, 5, 8, 16])),
                s=draw(seeds), n=draw(st.integers(2, 6)))


def random_valid(s, rec):
    d = s["d"]
    np.random.seed(s["s"])
    us = [Unitary.random(d) for _ in range(s["n"])]
    for u in us:
        a = matrix_of(u, d)
        check(np.abs(a @ a.conj().T - np.eye(d)).max() < 1e-9,
              "random operation is not unitary")
        check(abs(np.linalg.det(a) - 1) < 1e-9, "determinant is not 1")
    if d > 1:
        for i in range(len(us)):
            for j in range(i):
                check(O.phase_gap(us[i].get_matrix(),
                                  us[j].get_matrix()) > 1e-6,
                      "two random operations coincide")
    rec.hard(d > 1)


@st.composite
def haar_specs(draw):
    d = draw(st.sampled_from([2, 3, 4, 16, 5, 8, 6, 7, 12]))
    return dict(d=d, s=draw(seeds), w=draw(
        st.one_of(st.none(), mspecs(d))))


def features(ms):
    """Quantities blind to the global phase whose laws tell distributions
    over the unitary group apart."""
    d = ms.shape[1]
    tr = np.trace(ms, axis1=1, axis2=2)
    tr2 = np.trace(ms @ ms, axis1=1, axis2=2)
    det = np.linalg.det(ms)
    q = ms[:, 0, 0] * ms[:, 1, 1] * np.conj(ms[:, 0, 1] * ms[:, 1, 0])
    f = {"trace": np.abs(tr), "trace of square": np.abs(tr2),
         "row phases": np.angle(ms[:, 0, 0] * np.conj(ms[:, 0, -1])),
         "column phases": np.angle(ms[:, 0, 0] * np.conj(ms[:, -1, 0]))}
    if d > 2:
        # (for d = 2 these two are discrete: always real)
        f["relative phases"] = np.angle(q)
        f["phase of trace"] = np.angle(tr ** d / det)
    return f


REF = {}


def reference(d):
    """Features of 20000 Haar matrices made independently: QR of a complex
    Gaussian matrix with the phases of R's diagonal moved into Q."""
    if d not in REF:
        rng = np.random.default_rng(20250 + d)
        g = rng.normal(size=(20000, d, d)) + 1j * rng.normal(
            size=(20000, d, d))
        q, r = np.linalg.qr(g)
        ph = np.diagonal(r, axis1=1, axis2=2)
        REF[d] = features(q * (ph / np.abs(ph))[:, None, :])
    return REF[d]


def haar(s, rec):
    """For a Haar matrix, |(WU)_ij|^2 follows Beta(1, d-1) for every fixed
    unitary W; further features follow the law of a reference sample."""
    d = s["d"]
    np.random.seed(s["s"])
    w = np.eye(d) if s["w"] is None else mat(s["w"])
    n = 2500
    ms = np.array([w @ Unitary.random(d).get_matrix() for _ in range(n)])
    for (i, j) in ((0, 0), (d - 1, 0), (0, d - 1)):
        stats.cdf(np.abs(ms[:, i, j]) ** 2,
                  ss.beta(1, d - 1).cdf, "elements of random operations")
    ref = reference(d)
    for k, v in features(ms).items():
        r = ss.ks_2samp(v, ref[k], method="asymp")
        check(r.pvalue > stats.ALPHA, k, "of random operations: law is not "
              "that of Haar matrices, KS", round(float(r.statistic), 4),
              "on", n, "matrices of dimension", d)
    rec.note("d=%d" % d)
    rec.hard()


SUBS = [
    Sub("faithful", faithful_specs(), faithful, 2500),
    Sub("phases", phase_specs(), phases, 800),
    Sub("identity", st.integers(1, 128).map(lambda d: dict(d=d)),
        identity, 60),
    Sub("random_valid", random_specs(), random_valid, 200),
    Sub("haar", haar_specs(), haar, 45),
]
