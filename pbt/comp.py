"""Generated compilation problems shared by the compiler properties."""
import time
import numpy as np
from hypothesis import strategies as st

from . import oracle as O
from .core import check
from .gen import (primitives, Prim, Guard, fl, seeds, mspecs, mat, Unitary,
                  UnitarySequence, qubits_of, matrix_of)

from stoqcompiler.compiler import Compiler

thresholds = st.one_of(
    st.sampled_from([0.99, None, 0.9, 1.0, 0.95, 0.999, 0.7, None, 0.97,
                     0.5, 0.0, 0.9, 0.2, 0.05]), fl(0.6, 1))
append_ps = st.one_of(st.sampled_from([0.7, 0.9, 0.5, 0.8, 0.6, 0.7, 0.5,
                                       1.0, 0.3, 0.75, 0.8, 0.0]),
                      fl(0.45, 0.95))
rates = st.one_of(st.sampled_from([0.0, 0.1, 0.02, 0.1, 1.0, 0.3, 0.0,
                                   0.05, 10.0, 1e6]),
                  fl(0, 1))


@st.composite
def gate_sets(draw, n, counted=False, max_size=4, usable=True):
    ps = draw(st.lists(primitives(n, counted), min_size=1,
                       max_size=max_size))
    if usable and not any(p["a"] is None or len(p["a"]) for p in ps):
        ps[0] = dict(ps[0], a=None)
    return ps


def weights(draw, prims):
    """None, or probabilities summing to 1 with a usable primitive on."""
    if draw(st.integers(0, 2)) == 0:
        return None
    w = [draw(st.sampled_from([1, 2, 5, 0, 10, 1])) for _ in prims]
    ok = [p["a"] is None or len(p["a"]) > 0 for p in prims]
    if not any(x > 0 and u for x, u in zip(w, ok)):
        w[ok.index(True)] = 3
    return w


def probs(w):
    if w is None:
        return None
    s = float(sum(w))
    return [x / s for x in w]


def targets(n):
    haar = st.fixed_dictionaries(dict(k=st.just("mat"), m=(
        st.fixed_dictionaries(dict(k=st.just("haar"), d=st.just(2 ** n),
                                   s=seeds)))))
    return st.one_of(
        haar, haar, haar, haar,
        st.fixed_dictionaries(dict(k=st.just("mat"), m=mspecs(2 ** n))),
        st.fixed_dictionaries(dict(k=st.just("prod"), c=st.integers(2, 4),
                                   s=seeds)),
        st.fixed_dictionaries(dict(k=st.just("prod"), c=st.integers(0, 3),
                                   s=seeds)))


def step_counts(top):
    return st.one_of(
        st.sampled_from([x for x in (20, 13, 30, 8, 5, 40, 16, 3, 25, 12, 18,
                                     35, 10, 15, 6, 2, 1, 0)
                         if x <= top]), st.integers(top // 4, top))


@st.composite
def problems(draw, counted=None, sizes=(2, 1, 2, 3), max_steps=40,
             layered=None):
    n = draw(st.sampled_from(list(sizes)))
    c = draw(st.booleans()) if counted is None else counted
    lay = draw(st.sampled_from([False, False, True])) \
        if layered is None else layered
    ps = draw(gate_sets(n, c))
    if lay:
        ps = [p if p["a"] is None or p["a"] else dict(p, a=None)
              for p in ps]
    s = dict(n=n, ps=ps, s=draw(seeds), t=draw(thresholds),
             ap=draw(append_ps), r=draw(rates),
             steps=draw(step_counts(max_steps)),
             tgt=draw(targets(n)))
    if lay:
        s["counts"] = [draw(st.sampled_from(
            [1, 2, 1, 0, 3, 1, 2, 1, 0, 2, 6, 4])) for _ in ps]
        if sum(s["counts"]) == 0 and draw(st.integers(0, 7)):
            s["counts"][0] = draw(st.sampled_from([2, 1, 3]))
    else:
        s["w"] = weights(draw, ps)
    return s


def timed(call, whole=True):
    """The result of the call; its elapsed time is in seconds, no more than
    the call took and (of the whole call) not just a fraction. Generous,
    as clocks differ and other work may interrupt the call."""
    w, c = time.perf_counter(), time.process_time()
    r = call()
    w, c = time.perf_counter() - w, time.process_time() - c
    e = r.total_elapsed_time
    check(-1e-6 <= e <= w + 0.5, "elapsed time", e, "of a call that took", w)
    if whole:
        check(e >= 0.2 * c - 0.05, "elapsed time", e,
              "of a call that computed for", c)
    return r


class Problem:
    """A compiler, a target and the reference of its gate set."""

    def __init__(self, s, guard=None, box=None):
        self.s = s
        self.n = s["n"]
        self.d = 2 ** self.n
        self.guard = guard
        self.prims = [Prim(p, i, guard) for i, p in enumerate(s["ps"])]
        self.libs = [p.lib for p in self.prims]
        self.counts = s.get("counts")
        self.probs = probs(s.get("w"))
        if s["tgt"]["k"] == "mat":
            self.m = mat(s["tgt"]["m"])
        else:
            np.random.seed(s["tgt"]["s"])
            q = UnitarySequence(self.d)
            lib = [p.lib for p in self.prims if p.usable]
            for _ in range(s["tgt"]["c"]):
                q.append_last(Compiler.create_random_sequence_entry(
                    self.d, lib))
            self.m = np.array(q.product().get_matrix())
        self.target = Unitary(self.d, self.m.copy())
        self.compiler = self.make()

    def make(self, **kw):
        a = dict(append_probability=self.s["ap"],
                 annealing_rate=self.s["r"])
        a.update(kw)
        # lists or arrays, as documented for the gate set
        libs, pr = list(self.libs), self.probs
        if self.s["s"] % 3 == 1:
            libs = np.array(libs)
        if self.s["s"] % 3 == 2 and pr is not None:
            pr = np.array(pr)
        return Compiler(self.d, libs, pr, **a)

    def layer(self):
        return dict(zip(self.libs, self.counts))

    def run(self, steps=None, threshold=0, compiler=None, seed=None):
        t = self.s["t"] if threshold == 0 else threshold[0]
        steps = self.s["steps"] if steps is None else steps
        if self.guard is not None:
            per = 1 if self.counts is None else max(1, sum(self.counts))
            self.guard.n = 0
            self.guard.limit = (4 * steps + 20) * per
        np.random.seed(self.s["s"] if seed is None else seed)
        c = compiler or self.compiler
        if self.counts is None:
            return timed(lambda: c.compile(self.target, t, steps))
        return timed(lambda: c.compile_layered(
            self.target, self.layer(), t, steps))


def expected(dist, t):
    """Closeness at threshold t: True / False / None (within rounding)."""
    if t is None:
        t = 1.0
    if dist <= 1 - t - 1e-9 or dist < 5e-9:
        return True
    return False if dist > 1 - t + 2e-8 else None


def check_trace(res, target, d, t, budget, what="compile"):
    """The contract of a compilation result; returns the fresh product."""
    seq, cost = res.compiled_sequence, list(res.cost_by_step)
    es = seq.get_sequence_entries()
    prod = O.product([matrix_of(e.get_full_unitary(d), d, "gate")
                      for e in es], d)
    dist = O.dist(prod, target)
    check(len(cost) <= budget, what, "took", len(cost), "steps of", budget)
    for c in cost:
        check(-1e-9 <= c <= 1 + 1e-9, what, "cost", c)
    if cost:
        check(abs(cost[-1] - dist) < 1e-9, what, "last cost is", cost[-1],
              "but the sequence is at distance", dist)
    start = O.dist(np.eye(d), target)
    for i, c in enumerate([start] + cost[:-1] if cost else []):
        check(expected(c, t) is not True, what, "went on after step", i,
              "with distance", c, "at threshold", t)
    if expected(dist, t) is False:
        check(len(cost) == budget, what, "stopped after", len(cost), "of",
              budget, "steps at distance", dist, "threshold", t)
    gap = O.phase_gap(matrix_of(seq.product(), d), prod)
    check(gap < 2e-9, what, "product differs from its gates by", gap)
    return prod, dist


def gate_key(e, d):
    """Identity of a placed gate, for comparing sequences gate by gate."""
    u = e.get_full_unitary(d)
    return (u.get_operation_name(), tuple(qubits_of(e, "gate")),
            u.get_qasm(), (u.get_matrix().round(9) + (0.0 + 0.0j)).tobytes())


# ---- decoding a whole run from its cost trace -----------------------------
class Letters:
    """A gate set of generic gates on all qubits: each possible edit of a
    word (sequence) gives a different distance, so that the cost trace of a
    run determines the sequence after every single step.

    letters: list of (tuple of gate indices, probability); gates: matrices.
    """

    def __init__(self, mats, letters, names):
        self.mats = mats
        self.d = len(mats[0])
        self.names = names
        self.letters = [(x, p, O.product([mats[i] for i in x], self.d))
                        for x, p in letters if p > 0]

    def moves(self, word, m):
        """All single edits: {(kind, letter): new word, new matrix}."""
        out = []
        for j, (x, p, g) in enumerate(self.letters):
            out.append(("af", j, (j,) + word, m @ g))
            out.append(("al", j, word + (j,), g @ m))
        if word:
            f, l = self.letters[word[0]][2], self.letters[word[-1]][2]
            out.append(("rf", None, word[1:], m @ f.conj().T))
            out.append(("rl", None, word[:-1], l.conj().T @ m))
        return out

    def spelled(self, word):
        return [i for j in word for i in self.letters[j][0]]


def decode(lt, target, cost, tol=1e-9):
    """Yields for every step (word before, matrix, distance before, moves
    with their distances, word after), stopping at an ambiguous step."""
    word, m = (), np.eye(lt.d, dtype=complex)
    dist = O.dist(m, target)
    for k, c in enumerate(cost):
        moves = [(a, j, w, x, O.dist(x, target))
                 for a, j, w, x in lt.moves(word, m)]
        hit = {}
        if abs(c - dist) < tol:
            hit[word] = (m, dist)
        for a, j, w, x, y in moves:
            if abs(c - y) < tol and w not in hit:
                hit[w] = (x, y)
        check(len(hit) > 0, "step", k + 1, "changed the distance from", dist,
              "to", c, "which no single edit at an end of the sequence does")
        if len(hit) > 1:
            return
        after = next(iter(hit))
        yield word, dist, moves, after
        word = after
        m, dist = hit[after]
        if k % 50 == 49:
            m = O.product([lt.letters[j][2] for j in word], lt.d)


@st.composite
def letter_specs(draw, max_len=300, rate=None, ap=None):
    n = draw(st.sampled_from([1, 1, 2]))
    k = draw(st.integers(1, 3))
    lay = draw(st.sampled_from([False, False, True]))
    s = dict(n=n, g=[draw(seeds) for _ in range(k)], s=draw(seeds),
             t=draw(seeds), lay=lay,
             ap=draw(ap if ap is not None else st.one_of(
                 st.sampled_from([0.5, 0.6, 0.8, 0.4]), fl(0.35, 0.95))),
             r=draw(rate if rate is not None else st.one_of(
                 st.sampled_from([0.1, 0.02, 1.0, 100.0, 0.3]), fl(0, 3))),
             steps=max_len, close=draw(st.sampled_from([None, None, 0.1,
                                                        0.3, 0.03])))
    if lay:
        s["c"] = [draw(st.integers(1, 2)) for _ in range(k)]
        if sum(s["c"]) > 4:
            s["c"] = [1] * k
    else:
        s["w"] = draw(st.one_of(st.none(), st.lists(
            st.sampled_from([1, 2, 6, 0, 1]), min_size=k, max_size=k)
            .filter(any)))
    return s


class Words:
    """Builds the library objects and the reference of a letter spec."""

    def __init__(self, s):
        import itertools
        from .gen import UnitaryPrimitive
        self.s = s
        self.d = 2 ** s["n"]
        mats = [mat(dict(k="haar", d=self.d, s=x)) for x in s["g"]]
        self.names = ["G%d" % i for i in range(len(mats))]
        q = list(range(s["n"]))
        self.prims = [UnitaryPrimitive(Unitary(self.d, m.copy(), nm), [q])
                      for m, nm in zip(mats, self.names)]
        self.target_m = mat(dict(k="haar", d=self.d, s=s["t"]))
        if s["close"] is not None:
            # a target near the identity: most edits go uphill
            w, v = np.linalg.eig(self.target_m)
            self.target_m = v @ np.diag(np.exp(
                1j * s["close"] * np.angle(w))) @ np.linalg.inv(v)
            u, _, vh = np.linalg.svd(self.target_m)
            self.target_m = u @ vh
        self.target = Unitary(self.d, self.target_m.copy())
        if s["lay"]:
            items = [i for i, c in enumerate(s["c"]) for _ in range(c)]
            perms = list(itertools.permutations(items))
            letters = [(p, perms.count(p) / len(perms))
                       for p in sorted(set(perms))]
            self.probs = None
        else:
            k = len(mats)
            w = s["w"] or [1] * k
            letters = [((i,), w[i] / sum(w)) for i in range(k)]
            self.probs = probs(s["w"])
        self.lt = Letters(mats, letters, self.names)
        self.compiler = Compiler(
            self.d, list(self.prims), self.probs,
            append_probability=s["ap"], annealing_rate=s["r"])

    def run(self, steps, seed, compiler=None, threshold=None):
        np.random.seed(seed)
        c = compiler or self.compiler
        if self.s["lay"]:
            return c.compile_layered(
                self.target, dict(zip(self.prims, self.s["c"])), threshold,
                steps)
        return c.compile(self.target, threshold, steps)

    def final(self, res):
        return [e.get_full_unitary(self.d).get_operation_name()
                for e in res.compiled_sequence.get_sequence_entries()]

    def odds(self, dist, moves, word, beta):
        """Probabilities that a step goes up, goes down or sideways, or
        leaves the word, from the stated rules."""
        ap = self.s["ap"]
        up = down = stay = 0.0
        for a, j, w, x, y in moves:
            p = (ap / 2 * self.lt.letters[j][1] if j is not None
                 else (1 - ap) / 2)
            acc = min(1.0, float(np.exp(-beta * max(0.0, y - dist))))
            if y > dist:
                up += p * acc
            else:
                down += p * acc
            stay += p * (1 - acc)
        if not word:
            stay += 1 - ap
        return up, down, stay
