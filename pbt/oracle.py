"""Reference linear algebra, written independently of the library."""
import itertools
import math
import numpy as np

X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
I2 = np.eye(2, dtype=complex)


def evolve(h, t):
    """exp(+i t h) for Hermitian h, by eigendecomposition."""
    w, v = np.linalg.eigh(np.asarray(h, dtype=complex))
    return (v * np.exp(1j * t * w)) @ v.conj().T


def rot(p, theta):
    """exp(-i theta p / 2) for p with p^2 = 1."""
    return (math.cos(theta / 2) * np.eye(p.shape[0])
            - 1j * math.sin(theta / 2) * p)


def rphi(theta, phi):
    return rot(math.cos(phi) * X + math.sin(phi) * Y, theta)


def rxyz(a, b, c):
    return rot(Z, a) @ rot(Y, b) @ rot(Z, c)


def xx(theta):
    return rot(np.kron(X, X), 2 * theta)


def gms(n, theta):
    # all pairwise X.X commute: diagonal in the X basis
    d = 2 ** n
    had = np.array([[1]], dtype=complex)
    for _ in range(n):
        had = np.kron(had, np.array([[1, 1], [1, -1]]) / math.sqrt(2))
    ph = np.empty(d, dtype=complex)
    for b in range(d):
        s = [1 - 2 * ((b >> i) & 1) for i in range(n)]
        e = sum(s[i] * s[j] for i in range(n) for j in range(i + 1, n))
        ph[b] = np.exp(-1j * theta * e)
    return (had * ph) @ had


def controlled_not(k):
    m = np.eye(2 ** k, dtype=complex)
    m[[-2, -1]] = m[[-1, -2]]
    return m


H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
T = np.diag([1, np.exp(1j * math.pi / 4)])
QECC = np.array([
    [+1, +1, +1, +1, +1, +1, +1, +1],
    [+1, -1, -1, +1, -1, +1, +1, -1],
    [+1, +1, -1, -1, +1, +1, -1, -1],
    [+1, -1, +1, -1, -1, +1, -1, +1],
    [+1, +1, +1, +1, -1, -1, -1, -1],
    [+1, -1, -1, +1, +1, -1, -1, +1],
    [+1, -1, +1, -1, +1, -1, +1, -1],
    [+1, +1, -1, -1, -1, -1, +1, +1]], dtype=complex) / math.sqrt(8)


def embed(u, q, n):
    """u on the ordered qubits q of n (qubit 0 = leftmost factor)."""
    k = len(q)
    d = 2 ** n
    ops = np.asarray(u).reshape([2] * (2 * k))
    eye = np.eye(d, dtype=complex).reshape([2] * n + [d])
    r = np.tensordot(ops, eye, axes=(list(range(k, 2 * k)), list(q)))
    return np.moveaxis(r, list(range(k)), list(q)).reshape(d, d)


def product(mats, d):
    m = np.eye(d, dtype=complex)
    for a in mats:
        m = np.asarray(a) @ m
    return m


def dist(a, b):
    return 1.0 - abs(np.vdot(np.asarray(a), np.asarray(b))) / len(a)


def phase_gap(a, b):
    """Largest elementwise difference after the best global phase."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return float("inf")
    t = np.vdot(b, a)
    if abs(t) < 1e-6 * len(a):
        return 2.0
    return float(np.abs(a - (t / abs(t)) * b).max())


def opnorm(a):
    return float(np.linalg.norm(a, 2))


def opnorm_gap(a, b):
    """min over phases (approximately: best trace phase) of ||a - e^ip b||."""
    t = np.vdot(b, a)
    ph = t / abs(t) if abs(t) > 1e-12 else 1.0
    return opnorm(a - ph * b)


def embeddings(k, n):
    return list(itertools.permutations(range(n), k))


def closest_phase_opnorm(a, b):
    """min over global phases of the operator norm of a - e^{ip} b,
    from the eigenphases of b^dagger a (smallest arc containing them)."""
    w = np.angle(np.linalg.eigvals(b.conj().T @ a))
    w = np.sort(w)
    gaps = np.append(np.diff(w), w[0] + 2 * np.pi - w[-1])
    arc = 2 * np.pi - gaps.max()
    return 2 * math.sin(min(arc / 4, math.pi / 2))
