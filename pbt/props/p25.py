import itertools
import json
import math
import random
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from ..comp import problems, Problem, Compiler
from ..gen import (Guard, entries, Gate, herm, hspecs, mspecs, mat, seeds,
                   uf, placements, Unitary, UnitarySequence,
                   UnitarySequenceEntry, UnitaryPrimitive,
                   UnitaryDefinitions, ParameterizedUnitary,
                   ParameterizedUnitaryParameter,
                   ParameterizedUnitaryDefinitions as PUD)
from ..ham import hams, Ham
from ..rav import Verification
from .. import oracle as O
from ..gen import matrix_of
from ..world import (f_unitary, f_seq, f_result, f_gate, f_prim, f_entry,
                     num, reseed)

RULE = ("a call of the public interface with some optional arguments at "
        "their documented defaults and others drawn; non-trivial: at least "
        "two different forms of the call were compared, with a result that "
        "is not empty")


def forms(req, opt):
    """The ways to write one call: opt lists (name, documented default,
    value, is value the default) in the documented order."""
    out = [("by position", tuple(req) + tuple(v for _, v, _ in opt), {}),
           ("by name", tuple(req), {k: v for k, v, _ in opt})]
    left = {k: v for k, v, default in opt if not default}
    out.append(("defaults omitted", tuple(req), left))
    i = len(opt)
    while i and opt[i - 1][2]:
        i -= 1
    out.append(("trailing defaults omitted",
                tuple(req) + tuple(v for _, v, _ in opt[:i]), {}))
    for j in range(1, len(opt)):
        out.append(("%d by position" % j,
                    tuple(req) + tuple(v for _, v, _ in opt[:j]),
                    {k: v for k, v, default in opt[j:] if not default}))
    return out


def compare(make, fp, req, opt, seed, what, ready=lambda: None):
    """All forms of the call give the same under one random state."""
    first = None
    seen = 0
    for name, args, kw in forms(req, opt):
        ready()
        reseed(seed)
        got = json.dumps(fp(make(*args, **kw)))
        seen += 1
        if first is None:
            first = name, got
        elif got != first[1]:
            i = next((i for i, (a, b) in enumerate(zip(got, first[1]))
                      if a != b), 0)
            check(False, what, "with", name, "differs from", first[0],
                  ": ..." + got[max(0, i - 50):i + 50], "and ..."
                  + first[1][max(0, i - 50):i + 50],
                  "optional arguments:", [(k, "default" if d else v)
                                          for k, v, d in opt])
    return seen


def pick(flags, *opts):
    """Optional arguments: the default where the flag is set."""
    return [(k, d if f else v, bool(f)) for (k, d, v), f in
            zip(opts, flags)]


flags = st.lists(st.sampled_from([1, 0, 1]), min_size=5, max_size=5)


# ---- compiling -----------------------------------------------------------
@st.composite
def compile_specs(draw):
    s = dict(draw(problems(sizes=(1, 2), max_steps=80)))
    s["steps"] = max(s["steps"], 12)
    return dict(p=s, f=draw(flags), s=draw(seeds))


def compiling(s, rec):
    p = Problem(s["p"], Guard())
    q = s["p"]
    per = 1 if p.counts is None else max(1, sum(p.counts))

    def ready():
        p.guard.n = 0
        p.guard.limit = (4 * q["steps"] + 20) * per
    t = q["t"]

    def go(c):
        if p.counts is None:
            return c.compile(p.target, t, q["steps"])
        return c.compile_layered(p.target, p.layer(), t, q["steps"])
    compare(Compiler, lambda c: f_result(go(c)), [p.d, p.libs],
            pick(s["f"], ("unitary_primitive_probabilities", None, p.probs),
                 ("append_probability", 0.5, q["ap"]),
                 ("annealing_rate", 0.1, q["r"])),
            s["s"], "Compiler", ready)
    opt = [("threshold", None if s["f"][3] else t, s["f"][3]),
           ("max_step_count", q["steps"], False)]
    c = p.make()
    if p.counts is None:
        compare(c.compile, f_result, [p.target], opt, s["s"], "compile",
                ready)
    else:
        compare(c.compile_layered, f_result, [p.target, p.layer()], opt,
                s["s"], "compile_layered", ready)
    compare(Compiler.create_random_sequence_entry,
            lambda e: f_entry(e, p.d), [p.d, p.libs],
            pick(s["f"][4:], ("probabilities", None, p.probs)),
            s["s"], "create_random_sequence_entry", ready)
    rec.note("n=%d" % p.n)
    rec.hard(q["ap"] > 0)


# ---- verification --------------------------------------------------------
@st.composite
def rav_specs(draw):
    s = dict(draw(problems(sizes=(1, 2), max_steps=60)))
    s["tgt"] = dict(k="prod", c=0, s=0)
    s["steps"] = max(s["steps"], 8)
    return dict(p=s, f=draw(flags), s=draw(seeds),
                len=draw(st.integers(1, 5)))


def rav(s, rec):
    p = Problem(s["p"], Guard())
    q = s["p"]
    per = 1 if p.counts is None else max(1, sum(p.counts))

    def ready():
        p.guard.n = 0
        p.guard.limit = (4 * q["steps"] + 20 + s["len"]) * per
    if p.counts is None:
        fn = Verification.generate_rav_sequence
        req = [p.d, p.libs, s["len"], q["t"]]
        opt = pick(s["f"], ("stoq_append_probability", 0.5, q["ap"]),
                   ("unitary_primitive_probabilities", None, p.probs))
    else:
        fn = Verification.generate_layered_rav_sequence
        req = [p.d, p.layer(), s["len"], q["t"]]
        opt = pick(s["f"], ("stoq_append_probability", 0.5, q["ap"]))
    opt.append(("max_step_count", q["steps"], False))
    compare(fn, f_result, req, opt, s["s"], "RAV", ready)
    rec.note("layered" if p.counts else "plain")
    rec.hard(per > 0)


@st.composite
def budget_specs(draw):
    return dict(s=draw(seeds), lay=draw(st.booleans()),
                len=draw(st.integers(2, 4)),
                m=[draw(st.integers(0, 2 ** 31)) for _ in range(2)])


def budget(s, rec):
    """Without a budget, RAV uses 10000 steps on an unreachable inverse:
    it seldom appends, so it keeps short."""
    prims = []
    for i, x in enumerate(s["m"]):
        q, _ = np.linalg.qr(np.random.RandomState(x).normal(size=(2, 2, 2))
                            @ [1, 1j])
        prims.append(UnitaryPrimitive(Unitary(2, q, "A%d" % i), [[0]]))
    np.random.seed(s["s"])
    if s["lay"]:
        r = Verification.generate_layered_rav_sequence(
            2, {prims[0]: 1, prims[1]: 1}, s["len"], 1.0,
            stoq_append_probability=0.01)
    else:
        r = Verification.generate_rav_sequence(
            2, prims, s["len"], 1.0, stoq_append_probability=0.01)
    n = len(r.cost_by_step)
    m = O.dist(matrix_of(r.compiled_sequence.product(), 2), np.eye(2))
    check(n == 10000 or m < 1e-9, n, "steps without a budget, at distance",
          m)
    rec.hard(n == 10000)


class Reached(Exception):
    """Not a failure: so many gates were tried without a stop."""


def unlimited(s, rec):
    """Compiling without a step limit does not stop far from the target:
    gates are so seldom added that their number tells the steps taken."""
    left = [130]

    def diagonal(t):
        left[0] -= 1
        if left[0] < 0:
            raise Reached()
        return np.diag(np.exp([1j * t, -1j * t]))
    prim = UnitaryPrimitive(ParameterizedUnitary(
        2, diagonal, [ParameterizedUnitaryParameter("t", 0.0, 1.0, True)],
        "D"), [[0]])
    c = Compiler(2, [prim], append_probability=0.0025)
    x = 0.4 + s["x"]
    m = np.array([[math.cos(x), -math.sin(x)], [math.sin(x), math.cos(x)]])
    target = Unitary(2, m)
    np.random.seed(s["s"])
    try:
        if s["lay"]:
            r = c.compile_layered(target, {prim: 1}, 1.0)
        else:
            r = c.compile(target, 1.0)
    except Reached:
        rec.hard(True)
        return
    check(False, "stopped after", len(r.cost_by_step), "steps at distance",
          O.dist(matrix_of(r.compiled_sequence.product(), 2), m),
          "without a limit")


# ---- Hamiltonians --------------------------------------------------------
@st.composite
def ham_specs(draw):
    return dict(h=draw(hams(sizes=(1, 1, 2), max_terms=3, lo=0.3, hi=2.0)),
                f=draw(flags), s=draw(seeds), t=draw(uf(0.1, 1.5)),
                n=draw(st.integers(1, 5)), dt=draw(uf(0.2, 1.5)))


def hamiltonian(s, rec):
    h = Ham(s["h"])
    compare(h.lib.get_trotter_sequence, f_seq, [s["t"], s["n"]],
            pick(s["f"], ("randomize", False, True)), s["s"], "Trotter")
    # an undemanding threshold: the default mode decides which gates occur
    at = abs(np.trace(h.exact(s["t"]))) / h.d
    compare(h.lib.compile_stoq_sequence, f_result,
            [s["t"], s["dt"], at + 0.1 * (1 - at)],
            pick(s["f"][1:], ("allow_simultaneous_terms", False, True)),
            s["s"], "STOQ")
    compare(h.lib.compile_rav_sequence, f_result, [s["t"], s["dt"], 0.05],
            pick(s["f"][2:], ("allow_simultaneous_terms", False, True)),
            s["s"], "Hamiltonian RAV")
    rec.hard(len(h.ms) > 1)


# ---- objects -------------------------------------------------------------
@st.composite
def object_specs(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return dict(n=n, m=draw(mspecs(2 ** n)), f=draw(flags), s=draw(seeds),
                e=[draw(entries(n)) for _ in range(3)],
                x=draw(uf(-7, 7)), k=draw(st.integers(1, 4)),
                h=draw(hspecs(n)), t=draw(uf(0, 1)),
                q=draw(placements(n, n)), sfx=draw(st.sampled_from(
                    ["", "1", "0+2", "_a"])))


def objects(s, rec):
    n, d, f = s["n"], 2 ** s["n"], s["f"]

    def seen(u):
        return f_unitary(u) + [u.get_display_name()]
    given = {"a": (s["x"], True), "b": (0.25, False)}
    compare(Unitary, f_unitary, [d], pick(
        f, ("matrix", np.eye(d), mat(s["m"])),
        ("operation_name", None, "G7"), ("parameter_dict", None, given),
        ("is_inverse", False, True), ("apply_to", [], list(s["q"]))),
        0, "Unitary")
    compare(UnitaryDefinitions.xx, f_unitary, [], pick(
        f, ("theta", math.pi / 4, s["x"])), 0, "xx")
    compare(UnitaryDefinitions.gms, f_unitary, [s["k"]], pick(
        f, ("theta", math.pi / 4, s["x"])), 0, "gms")
    m = herm(s["h"])
    for what, u, v in (("xx", UnitaryDefinitions.xx(),
                        O.xx(math.pi / 4)),):
        check(O.phase_gap(matrix_of(u, 4), v) < 1e-9, "default", what)
    compare(UnitaryDefinitions.time_evolution, f_unitary, [m, s["x"]], pick(
        f, ("h_suffix", "", s["sfx"])), 0, "time_evolution")
    compare(PUD.time_evolution, f_gate, [m, -1.0, 2.0], pick(
        f, ("h_suffix", "", s["sfx"])), 0, "parameterized time_evolution")
    gs = [Gate(e["g"]).u for e in s["e"]]
    es = [UnitarySequenceEntry(g, list(e["q"]))
          for g, e in zip(gs, s["e"])]
    compare(UnitaryPrimitive, f_prim, [gs[0]], pick(
        f, ("allowed_apply_to", None, [list(s["e"][0]["q"])])), 0,
        "UnitaryPrimitive")
    # a primitive without placements goes everywhere
    g = gs[0]
    k = g.get_dimension().bit_length() - 1
    everywhere = set(itertools.permutations(range(n), k))
    np.random.seed(s["s"])
    got = {tuple(int(x) for x in Compiler.create_random_sequence_entry(
        d, [UnitaryPrimitive(g)]).get_apply_to())
        for _ in range(30 * len(everywhere))}
    check(got == everywhere, "a primitive without given placements is "
          "placed on", sorted(got), "of", n, "qubits")
    compare(UnitarySequence, f_seq, [d], pick(
        f, ("sequence_entries", [], es)), 0, "UnitarySequence")
    u, v = (es[0].get_full_unitary(d), es[1].get_full_unitary(d))
    compare(u.close_to, bool, [v], pick(f, ("threshold", None, s["t"])), 0,
            "close_to")
    save = f[4]
    for op in ("append_first", "append_last", "remove_first",
               "remove_last"):
        def edited(*a, **k):
            """Two edits and one undo: it goes back over the second one
            only if that saved its state."""
            q = UnitarySequence(d, list(es))
            q.append_last(es[0])
            getattr(q, op)(*a, **k)
            q.undo()
            return q
        compare(edited, f_seq, [es[2]] if "append" in op else [], [
            ("save_undo", bool(save), save)], 0, op)
    rec.note("n=%d" % n, *["f%d" % i for i, x in enumerate(f) if x])
    rec.hard(len(set(f)) > 1)


@st.composite
def zero_specs(draw):
    return dict(n=draw(st.sampled_from([1, 2, 3])), s=draw(seeds),
                m=[draw(seeds) for _ in range(2)], k=draw(
                    st.integers(1, 25)), len=draw(st.integers(0, 4)),
                z=draw(st.sampled_from(["int", "float", "numpy"])),
                pos=draw(st.booleans()), h=draw(hspecs(1, 0.5, 2.0)))


def zeros(s, rec):
    """Zero, false and empty values given explicitly are not taken for
    missing ones."""
    n, d, k = s["n"], 2 ** s["n"], s["k"]
    zero = {"int": 0, "float": 0.0, "numpy": np.float64(0.0)}[s["z"]]
    prims = [UnitaryPrimitive(Unitary(2, mat(dict(
        k="haar", d=2, s=(x + 1 + i) % 2 ** 31)), "G%d" % i), [[i % n]])
        for i, x in enumerate(s["m"])]
    counts = {prims[0]: 1, prims[1]: 1}
    goal = Unitary(d, mat(dict(k="haar", d=d,
                               s=(s["s"] + 10 ** 6) % 2 ** 31)))
    if goal.close_to(Unitary(d), 0.999):
        return

    def runs(what, make, steps, length, trace, **kw):
        for name, r, per in (
                ("compile", lambda: make().compile(goal, **kw), 1),
                ("compile_layered", lambda: make().compile_layered(
                    goal, counts, **kw), 2)):
            reseed(s["s"])
            r = r()
            check(len(r.cost_by_step) == steps, name, "with", what, "took",
                  len(r.cost_by_step), "steps, expected", steps)
            if length is not None:
                check(r.compiled_sequence.get_length() == length * per,
                      name, "with", what, "gave",
                      r.compiled_sequence.get_length(), "gates, expected",
                      length * per)
            if trace:
                check(max(r.cost_by_step) - min(r.cost_by_step) < 1e-9,
                      name, "with", what, "changed its cost")

    def nothing():
        return (Compiler(d, prims, None, zero, 0.1) if s["pos"] else
                Compiler(d, prims, append_probability=zero))
    runs("append probability 0", nothing, k, 0, True, threshold=1.0,
         max_step_count=k)
    # every change is accepted without annealing
    runs("annealing rate 0", lambda: Compiler(d, prims, None, 1.0, zero)
         if s["pos"] else Compiler(d, prims, append_probability=1.0,
                                   annealing_rate=zero),
         k, k, False, threshold=1.0, max_step_count=k)
    runs("threshold 0", lambda: Compiler(d, prims), 0, 0, False,
         threshold=zero, max_step_count=k)
    runs("budget 0", lambda: Compiler(d, prims), 0, 0, False,
         threshold=1.0, max_step_count=0)
    check(goal.close_to(Unitary(d, mat(dict(
        k="haar", d=d, s=s["m"][0] % 2 ** 31))), zero),
        "not close at threshold 0")
    # the primitive that is not wanted, or has no placement, is not used
    bare = UnitaryPrimitive(Unitary(2, O.X, "NO"), [])
    for libs, pr in (([prims[0], bare], None), ([bare, prims[0]], None),
                     ([prims[0], UnitaryPrimitive(Unitary(2, O.X, "NO"))],
                      [1.0, zero])):
        reseed(s["s"])
        r = Compiler(d, libs, pr, 1.0, zero).compile(goal, 1.0, k)
        names = {e.get_full_unitary(d).get_operation_name() for e in
                 r.compiled_sequence.get_sequence_entries()}
        check(names <= {"G0"}, "gates", sorted(names), "from a set whose "
              "only usable one is G0")
    # verification
    reseed(s["s"])
    r = (Verification.generate_rav_sequence(d, prims, s["len"], 1.0, zero,
                                            None, k) if s["pos"] else
         Verification.generate_rav_sequence(
             d, prims, s["len"], 1.0, stoq_append_probability=zero,
             max_step_count=k))
    reseed(s["s"])
    q = Verification.generate_layered_rav_sequence(
        d, counts, s["len"], 1.0, stoq_append_probability=zero,
        max_step_count=k)
    for r, per in ((r, 1), (q, 2)):
        check(r.compiled_sequence.get_length() == s["len"] * per, "RAV of "
              "append probability 0 has", r.compiled_sequence.get_length(),
              "gates, expected", s["len"] * per)
        check(len(r.cost_by_step) in (0, k), "RAV of append probability 0 "
              "took", len(r.cost_by_step), "steps")
    for kw in (dict(threshold=zero), dict(threshold=1.0, max_step_count=0)):
        r = Verification.generate_rav_sequence(d, prims, s["len"], **kw)
        q = Verification.generate_layered_rav_sequence(
            d, counts, s["len"], **kw)
        check((r.compiled_sequence.get_length(), len(r.cost_by_step),
               q.compiled_sequence.get_length(), len(q.cost_by_step))
              == (s["len"], 0, 2 * s["len"], 0), "RAV with", kw,
              "is not the random start alone")
    # gates
    for what, u in (("xx", UnitaryDefinitions.xx(zero)),
                    ("gms", UnitaryDefinitions.gms(n, zero)),
                    ("rx", UnitaryDefinitions.rx(zero)),
                    ("rphi", UnitaryDefinitions.rphi(zero, zero)),
                    ("evolution", UnitaryDefinitions.time_evolution(
                        herm(s["h"]), zero))):
        m = matrix_of(u, u.get_dimension())
        check(O.phase_gap(m, np.eye(len(m))) < 1e-9, what,
              "of 0 is not the identity")
        p = u.get_parameter_value("t" if what == "evolution" else "θ")
        check(p is not None and p[0] == 0, what, "of 0 records", p)
    for sfx in ("", 0, "0"):
        check(UnitaryDefinitions.time_evolution(herm(s["h"]), 1.0, sfx)
              .get_operation_name() == "H" + str(sfx), "suffix", repr(sfx))
    # simulation
    h = Ham(dict(n=1, ts=[s["h"], dict(s["h"], c=1.5)]))
    for seq in (h.lib.get_trotter_sequence(zero, 3, False),
                h.lib.get_trotter_sequence(zero, 3, True),
                h.lib.get_qdrift_sequence(zero, 3),
                h.lib.get_ideal_sequence(zero, 3)):
        check(O.phase_gap(matrix_of(seq.product(), 2), np.eye(2)) < 1e-9,
              "simulation over time 0 is not the identity")
        check(seq.get_length() in (3, 6), "length", seq.get_length())
    for r in (h.lib.compile_stoq_sequence(zero, 0.5, 1.0, False),
              h.lib.compile_stoq_sequence(1.0, 0.5, zero),
              h.lib.compile_rav_sequence(zero, 0.5, 1.0)):
        check(r.compiled_sequence.get_length() == 0
              and len(r.cost_by_step) == 0, "STOQ of time or threshold 0")
    rec.note("n=%d" % n, s["z"])
    rec.hard(k >= 3)


SUBS = [
    Sub("compiling", compile_specs(), compiling, 110),
    Sub("rav", rav_specs(), rav, 70),
    Sub("budget", budget_specs(), budget, 6),
    Sub("unlimited", st.fixed_dictionaries(dict(
        s=seeds, lay=st.booleans(), x=uf(0, 1))), unlimited, 3),
    Sub("hamiltonian", ham_specs(), hamiltonian, 60),
    Sub("objects", object_specs(), objects, 260),
    Sub("zeros", zero_specs(), zeros, 120),
]
