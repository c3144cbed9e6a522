import math
import random
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (seeds, uf, fl, mspecs, mat, hspecs, herm, matrix_of,
                   qubits_of, Unitary, UnitaryPrimitive,
                   ParameterizedUnitary, ParameterizedUnitaryParameter)
from ..comp import Compiler, append_ps, step_counts
from ..rav import Verification
from ..ham import Hamiltonian, HamiltonianTerm

RULE = ("a compilation, verification or simulation problem and a rewriting "
        "of it that changes no physics (names, global phases, qubit labels, "
        "basis, spectator qubits, units, energy offsets); non-trivial: the "
        "result has at least two gates")


# ---- gate sets -----------------------------------------------------------
@st.composite
def sets(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    how = draw(st.sampled_from(["names", "phase", "labels", "basis",
                                "spectator", "labels", "basis", "names"]))
    kind = draw(st.sampled_from(["compile", "layered", "rav", "lrav",
                                 "xeb"] + ["compile", "rav"] * (
                                     how == "names")))
    # A proposal which leaves the cost as it is (a gate proportional to the
    # identity, commuting gates of a finite set) is accepted or not by the
    # last bit of the cost, which a rewriting may change: such gates only
    # where the search plays no part or the numbers stay the same.
    ties = kind == "xeb" or how == "names"
    finite = ties or kind in ("compile", "layered")
    haar = st.builds(lambda s, g: dict(k="haar", s=s, g=g), seeds,
                     fl(-math.pi, math.pi))
    ps = []
    for _ in range(draw(st.integers(1, 4))):
        k = n if how == "basis" else draw(st.integers(1, min(n, 2)))
        if how == "basis":
            a = [list(range(n))]
        else:
            a = [list(x[:k]) for x in draw(st.lists(
                st.permutations(range(n)), min_size=1, max_size=4))]
        if finite and draw(st.booleans()):
            m = draw(mspecs(2 ** k) if ties else haar)
            ps.append(dict(m=dict(m, d=2 ** k), k=k, a=a))
        elif ties:
            ps.append(dict(h=draw(hspecs(k, 0.5, 2.0)), k=k, a=a,
                           r=sorted([draw(uf(-2, 2)), draw(uf(-2, 2))])))
        else:
            r = draw(uf(-2, 2))
            ps.append(dict(h=dict(k="dense", n=k, c=draw(uf(0.5, 2)),
                                  s=draw(seeds)), k=k, a=a,
                           r=[r, r + draw(uf(0.5, 2))]))
    s = dict(n=n, how=how, ps=ps, kind=kind, s=draw(seeds),
             ap=draw(append_ps), r=draw(st.sampled_from([0.1, 0.05, 0.2])),
             steps=draw(st.one_of(step_counts(40), st.just(60))),
             t=draw(st.sampled_from([None, 0.98765, 0.9123, 0.71234])),
             tgt=dict(draw(mspecs(2 ** n) if ties else haar), d=2 ** n), v=draw(seeds), p=list(draw(
                 st.permutations(range(n)))), g=draw(uf(-3, 3)),
             len=draw(st.integers(0, 6)))
    if kind in ("layered", "lrav", "xeb"):
        s["c"] = [draw(st.integers(0, 3)) for _ in ps]
        if not ties:
            s["c"][0] += not any(s["c"])
    else:
        s["w"] = draw(st.one_of(st.none(), st.lists(
            st.sampled_from([1, 2, 5]), min_size=len(ps),
            max_size=len(ps))))
    return s


class Set:
    """The problem as given, or rewritten: how the gates' matrices, the
    names, the qubits and the target change."""

    def __init__(self, s, new):
        self.n = n = s["n"]
        how = s["how"] if new else None
        self.wide = n + 1 if how == "spectator" else n
        self.v = np.eye(2 ** n)
        if how == "basis":
            self.v = mat(dict(k="haar", d=2 ** n, s=s["v"]))
        self.perm = s["p"] if how == "labels" else list(range(n))
        rng = np.random.RandomState(s["v"] % 2 ** 31)
        # all gates under one name, or each under its own
        one = how == "names" and s["v"] % 2 == 0
        self.libs, self.names = [], []
        for i, p in enumerate(s["ps"]):
            ph = np.exp(1j * rng.uniform(-3, 3)) if how == "phase" else 1
            name = ["zz9", "A", "Rx", "_"][rng.randint(4)] + "%d" % (9 - i) \
                if how == "names" else "G%d" % i
            if one:
                name = "G"
            par = "omega_%d" % i if how == "names" else "t"
            v = self.v if how == "basis" else np.eye(2 ** p["k"])
            if "m" in p:
                u = Unitary(2 ** p["k"], ph * v @ mat(p["m"]) @ v.conj().T,
                            name)
            else:
                h = herm(p["h"])
                u = ParameterizedUnitary(
                    2 ** p["k"], lambda t, h=h, v=v, ph=ph: ph * (
                        v @ O.evolve(h, t) @ v.conj().T),
                    [ParameterizedUnitaryParameter(par, p["r"][0],
                                                   p["r"][1], False)], name)
            self.names.append(name)
            self.libs.append(UnitaryPrimitive(
                u, [[self.perm[x] for x in a] for a in p["a"]]))
        t = s["tgt"]
        m = self.full(mat(dict(t, s=(t["s"] + 77777) % 2**32) if "s" in t else t))
        if how == "phase":
            m = m * np.exp(1j * s["g"])
        self.target = m

    def full(self, m):
        """The rewriting of an operation on all of the n qubits."""
        m = self.v @ m @ self.v.conj().T
        if self.perm != list(range(self.n)):
            m = O.embed(m, self.perm, self.n)
        if self.wide > self.n:
            m = np.kron(m, np.eye(2))
        return m

    def run(self, s):
        d = 2 ** self.wide
        np.random.seed(s["s"] % 2 ** 32)
        random.seed(s["s"])
        pr = None
        if s.get("w"):
            pr = list(np.array(s["w"]) / sum(s["w"]))
        counts = dict(zip(self.libs, s.get("c", [])))
        kind = s["kind"]
        if kind in ("compile", "layered"):
            c = Compiler(d, self.libs, pr, s["ap"], s["r"])
            u = Unitary(d, self.target)
            if kind == "compile":
                return c.compile(u, s["t"], s["steps"])
            return c.compile_layered(u, counts, s["t"], s["steps"])
        if kind == "rav":
            return Verification.generate_rav_sequence(
                d, self.libs, s["len"], s["t"], s["ap"], pr, s["steps"])
        if kind == "lrav":
            return Verification.generate_layered_rav_sequence(
                d, counts, s["len"], s["t"], s["ap"], s["steps"])
        return Verification.generate_xeb_sequence(d, counts, s["len"])


def gates(s, rec):
    a, b = Set(s, False), Set(s, True)
    ra, rb = a.run(s), b.run(s)
    what = "rewritten (%s) %s" % (s["how"], s["kind"])
    trace(ra, rb, what)
    ea = ra.compiled_sequence.get_sequence_entries()
    eb = rb.compiled_sequence.get_sequence_entries()
    check(len(ea) == len(eb), what, "gives", len(eb), "gates instead of",
          len(ea))
    da, db = 2 ** a.wide, 2 ** b.wide
    for i, (x, y) in enumerate(zip(ea, eb)):
        check([b.perm[q] for q in qubits_of(x, what)]
              == qubits_of(y, what), what, "puts gate", i, "on",
              y.get_apply_to(), "instead of", x.get_apply_to(), "relabelled")
        fx, fy = x.get_full_unitary(da), y.get_full_unitary(db)
        gap = O.phase_gap(matrix_of(fy, db), b.full(matrix_of(fx, da)))
        check(gap < 1e-8, what, "gate", i, "differs by", gap)
        check(a.names.index(fx.get_operation_name())
              == b.names.index(fy.get_operation_name())
              if len(set(b.names)) == len(b.names) else True, what, "gate",
              i, "is named", fy.get_operation_name())
    gap = O.phase_gap(matrix_of(rb.compiled_sequence.product(), db),
                      b.full(matrix_of(ra.compiled_sequence.product(), da)))
    check(gap < 1e-7, what, "product differs by", gap)
    rec.note(s["how"], s["kind"])
    rec.hard(len(ea) >= 2)


def trace(ra, rb, what):
    ca, cb = list(ra.cost_by_step), list(rb.cost_by_step)
    check(len(ca) == len(cb), what, "takes", len(cb), "steps instead of",
          len(ca))
    for i, (x, y) in enumerate(zip(ca, cb)):
        check(abs(x - y) < 1e-8, what, "costs", y, "instead of", x,
              "at step", i)


# ---- Hamiltonians --------------------------------------------------------
@st.composite
def ham_specs(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    k = draw(st.integers(1, 3))
    return dict(n=n, hs=[draw(hspecs(n, 0.5, 2.0)) for _ in range(k)],
                how=draw(st.sampled_from(["basis", "units", "offset",
                                          "spectator"])),
                kind=draw(st.sampled_from(["trotter", "random", "qdrift",
                                           "ideal", "stoq", "rav"])),
                s=draw(seeds), v=draw(seeds), t=draw(uf(0.2, 2.0)),
                steps=draw(st.integers(1, 12)), dt=draw(uf(0.3, 1.5)),
                c=10 ** draw(uf(-3, 3)), sim=draw(st.booleans()),
                off=[draw(uf(-2, 2)) for _ in range(k)])


def hamiltonian(s, rec):
    n, d, how, kind = s["n"], 2 ** s["n"], s["how"], s["kind"]
    if how == "offset" and kind == "qdrift":
        how = "basis"       # its weights depend on the offset
    what = "rewritten (%s) %s" % (how, kind)
    ms = [herm(h) for h in s["hs"]]
    v = mat(dict(k="haar", d=d, s=s["v"])) if how == "basis" else np.eye(d)
    c = s["c"] if how == "units" else 1.0
    wide = 2 * d if how == "spectator" else d

    def full(m):
        m = v @ m @ v.conj().T
        return np.kron(m, np.eye(2)) if wide > d else m
    new = []
    for m, o in zip(ms, s["off"]):
        m = full(m)
        m = (m + m.conj().T) / 2 * c
        if how == "offset":
            m = m + o * np.eye(d)
        if O.opnorm(m) < 1e-3:
            return
        if kind in ("stoq", "rav") and O.opnorm(
                m - np.trace(m) / wide * np.eye(wide)) < 1e-3 * c:
            return      # changes no cost
        new.append(m)
    at = abs(np.trace(O.evolve(np.sum(ms, axis=0), s["t"]))) / d
    at = at + 0.2 * (1 - at)

    def run(mats, u):
        h = Hamiltonian([HamiltonianTerm(m) for m in mats])
        np.random.seed(s["s"] % 2 ** 32)
        random.seed(s["s"])
        t = s["t"] / u
        if kind in ("trotter", "random"):
            return None, h.get_trotter_sequence(t, s["steps"],
                                                kind == "random")
        if kind == "qdrift":
            return None, h.get_qdrift_sequence(t, s["steps"])
        if kind == "ideal":
            return None, h.get_ideal_sequence(t, s["steps"])
        if kind == "stoq":
            r = h.compile_stoq_sequence(t, s["dt"] / u, at, s["sim"])
        else:
            r = h.compile_rav_sequence(3 * t, s["dt"] / u, 0.1, s["sim"])
        return r, r.compiled_sequence
    (ra, qa), (rb, qb) = run(ms, 1.0), run(new, c)
    if ra is not None:
        if how == "spectator" and len(ra.cost_by_step) > 150:
            # the annealing limit depends on the dimension
            check(len(rb.cost_by_step) > 150, what, "ends early")
            return
        trace(ra, rb, what)
    ea, eb = qa.get_sequence_entries(), qb.get_sequence_entries()
    check(len(ea) == len(eb), what, "gives", len(eb), "gates instead of",
          len(ea))
    for i, (x, y) in enumerate(zip(ea, eb)):
        gap = O.phase_gap(matrix_of(y.get_full_unitary(wide), wide),
                          full(matrix_of(x.get_full_unitary(d), d)))
        check(gap < 1e-8, what, "gate", i, "differs by", gap)
    rec.note(how, kind)
    rec.hard(len(ea) >= 2)


SUBS = [
    Sub("gates", sets(), gates, 460),
    Sub("hamiltonian", ham_specs(), hamiltonian, 240),
]
