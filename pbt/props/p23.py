import json
import os
import random
import subprocess
import sys
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, HarnessError
from ..gen import mat, seeds
from .. import world as W

RULE = ("a world of compiler, primitives, Hamiltonian, sequences and a "
        "history of 1..8 calls before the probed call; non-trivial: a call "
        "compared after a history, under several seeds or in another process")


@st.composite
def specs(draw, names):
    return dict(w=draw(W.worlds()), op=draw(st.sampled_from(sorted(names))),
                s=draw(seeds), s2=draw(seeds),
                hist=draw(W.histories(8)),
                shared=draw(st.booleans()))


def same(a, b, op, what):
    if a != b:
        x, y = json.dumps(a), json.dumps(b)
        i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
        check(False, op, what, "differs: ...%s... and ...%s..." % (
            x[max(0, i - 60):i + 60], y[max(0, i - 60):i + 60]))


def states():
    a = np.random.get_state()
    return (a[0], a[1].tobytes()) + tuple(a[2:]), random.getstate()


def history(s, rec):
    call = W.CALLS[s["op"]]
    if s["op"] not in W.RANDOM:
        w = W.World(s["w"])
        W.reseed(s["s"])
        before = states()
        call(w)
        check(states() == before, s["op"], "is deterministic but advances "
              "the random generators")
    W.reseed(s["s"])
    alone = call(W.World(s["w"])) if s["op"] not in W.RANDOM else None
    w = W.World(s["w"])
    if alone is None:
        W.reseed(s["s"])
        alone = call(w)
        if not s["shared"]:
            w = W.World(s["w"])
    W.reseed(s["s2"])
    for h in s["hist"]:
        W.CALLS[h](w)
    W.reseed(s["s"] if s["op"] in W.RANDOM else s["s2"])
    same(alone, call(w), s["op"], "after %s" % s["hist"])
    W.reseed(s["s"] if s["op"] in W.RANDOM else s["s2"])
    same(alone, call(w), s["op"], "called once more")
    rec.note(s["op"])
    rec.hard(len(s["hist"]) > 0)


def varies(s, rec):
    """Different seeds, and successive calls, give different results: the
    probed outcomes are continuous or have many equally likely values."""
    op = s["op"]
    w = W.World(s["w"])
    call = VARY[op]

    def key(x):
        return json.dumps(x)
    a, b = set(), set()
    for i in range(5):
        W.reseed(s["s"] + 7919 * i)
        a.add(key(call(w)))
    check(len(a) > 1, op, "gives the same under five different seeds")
    W.reseed(s["s"])
    for i in range(5):
        b.add(key(call(w)))
    check(len(b) > 1, op, "gives the same five times in a row")
    # a seed reproduces the whole series of calls
    W.reseed(s["s"])
    again = {key(call(w)) for i in range(5)}
    same(sorted(b), sorted(again), op, "series of calls")
    rec.note(op)
    rec.hard()


def _prims():
    return [W.UnitaryPrimitive(W.PUD.rotation_xyz()),
            W.UnitaryPrimitive(W.PUD.xx())]


def _target():
    return W.Unitary(4, np.diag(np.exp(1j * np.array([0, 1.0, 2.5, 4]))))


def _ham():
    return W.Hamiltonian([W.HamiltonianTerm(np.array([[0, 1.0], [1, 0]])),
                          W.HamiltonianTerm(np.diag([1.0, -1.0]))])


VARY = {
    "entry": lambda w: W.f_entry(W.Compiler.create_random_sequence_entry(
        4, _prims()), 4),
    "layer": lambda w: [W.f_entry(e, 4) for e in
                        W.Compiler.create_random_layer(
                            4, {p: 1 for p in _prims()})],
    "compile": lambda w: W.f_result(W.Compiler(4, _prims()).compile(
        _target(), 1.0, 8)),
    "layered": lambda w: W.f_result(W.Compiler(4, _prims()).compile_layered(
        _target(), {p: 1 for p in _prims()}, 1.0, 8)),
    "rav": lambda w: W.f_result(W.Verification.generate_rav_sequence(
        4, _prims(), 3, 1.0, max_step_count=4)),
    "lrav": lambda w: W.f_result(
        W.Verification.generate_layered_rav_sequence(
            4, {p: 1 for p in _prims()}, 2, 1.0, max_step_count=4)),
    "xeb": lambda w: W.f_result(W.Verification.generate_xeb_sequence(
        4, {p: 1 for p in _prims()}, 2)),
    "trotter": lambda w: W.f_seq(_ham().get_trotter_sequence(
        1.1, 15, randomize=True)),
    "qdrift": lambda w: W.f_seq(_ham().get_qdrift_sequence(1.1, 40)),
    "hrav": lambda w: W.f_result(w.ham.compile_rav_sequence(4.0, 1.0, 0.0)),
    "random": W.RANDOM["random"],
    "value": W.RANDOM["value"],
}


def vary_specs(op):
    return st.fixed_dictionaries(dict(
        w=W.worlds(), op=st.just(op), s=st.integers(
            0, 2 ** 31)))


CHILD = r'''
import json, sys
from pbt import runner
runner.load_repo()
from pbt import world as W
from pbt.core import muted
s = json.load(sys.stdin)
with muted():
    w = W.World(s["w"])
    out = {}
    for op in s["ops"]:
        W.reseed(s["s"])
        out[op] = W.CALLS[op](w)
print(json.dumps(out))
'''


def processes(s, rec):
    """Another process with another hash seed gives the same results."""
    outs = []
    for hs in ("0", str(1 + s["s"] % 1000)):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD],
                           input=json.dumps(s), capture_output=True,
                           text=True, env=env, timeout=200)
        if r.returncode != 0:
            raise HarnessError("child failed: " + r.stderr[-2000:])
        outs.append(json.loads(r.stdout.strip().splitlines()[-1]))
    for op in s["ops"]:
        same(outs[0][op], outs[1][op], op, "in another process")
    rec.hard(any(op in W.RANDOM for op in s["ops"]))


def long_runs(s, rec):
    """Two runs of thousands of steps from one seed."""
    ps = [W.UnitaryPrimitive(W.Unitary(2, mat(dict(k="haar", d=2, s=x)),
                                       "G%d" % x)) for x in s["g"]]

    def run():
        W.reseed(s["s"])
        if s["op"] == "rav":
            r = W.Verification.generate_rav_sequence(2, ps, 4, 1.0)
        elif s["op"] == "lrav":
            r = W.Verification.generate_layered_rav_sequence(
                2, {p: 1 for p in ps}, 2, 1.0, max_step_count=s["n"])
        else:
            r = W.Compiler(2, ps, None, 0.4).compile(
                W.Unitary(2, np.diag([1, 1j])), None, s["n"])
        return [list(r.cost_by_step), W.f_seq(r.compiled_sequence),
                float(np.random.random_sample())]
    same(run(), run(), s["op"], "of many steps")
    rec.note(s["op"])
    rec.hard()


@st.composite
def big_specs(draw):
    n = draw(st.sampled_from([5, 6, 5, 7]))
    k = draw(st.integers(1, min(n, 6)))
    return dict(n=n, k=k, s=draw(seeds), s2=draw(seeds), q=draw(
        st.permutations(range(n)))[:k], t=draw(st.floats(0.1, 2.0)))


def big(s, rec):
    """Deterministic calls on many qubits are as free of chance."""
    n, d, k = s["n"], 2 ** s["n"], s["k"]
    m = mat(dict(k="haar", d=d, s=s["s"]))
    g = mat(dict(k="haar", d=2 ** k, s=s["s"] + 1))
    h = np.array([[0, 1.0], [1, 0]])
    for _ in range(min(n, 6) - 1):
        h = np.kron(h, np.diag([1.0, -0.5])) + np.kron(
            np.eye(len(h)), np.array([[0, 0.3], [0.3, 0]]))

    def run():
        u = W.Unitary(d, m, "G")
        e = W.UnitarySequenceEntry(W.Unitary(2 ** k, g, "E"), list(s["q"]))
        q = W.UnitarySequence(d, [e])
        q.append_last(e)
        q.append_first(W.UnitarySequenceEntry(
            W.UnitaryDefinitions.gms(n, 0.3), list(range(n))))
        q.remove_last()
        q.undo()
        ham = W.Hamiltonian([W.HamiltonianTerm(h), W.HamiltonianTerm(
            np.diag(np.arange(len(h)) / len(h)))])
        # (an operation on all of many qubits is shown by its matrix only)
        return [u.get_matrix().tobytes().hex()[:4096],
                W.num(u.distance_from(u.inverse())),
                bool(u.close_to(u.inverse(), 0.5)),
                W.f_unitary(u.left_multiply(u).right_multiply(u.inverse())),
                W.f_unitary(W.Unitary.identity(d)),
                W.f_unitary(W.Unitary(2, np.diag([1, 1j])).tensor(u)),
                W.f_seq(q), W.f_seq(q.inverse()),
                W.f_seq(W.UnitarySequence.combine(q, q)),
                W.f_gate(W.PUD.gms(n)),
                W.f_unitary(ham.get_time_evolution_operator(s["t"])),
                W.f_seq(ham.get_ideal_sequence(s["t"], 2)),
                W.f_seq(ham.get_trotter_sequence(s["t"], 2))]
    W.reseed(s["s"])
    before = states()
    a = run()
    check(states() == before, "deterministic calls on %d qubits advance the "
          "random generators" % n)
    W.reseed(s["s2"])
    same(a, run(), "calls on %d qubits" % n, "under another seed")
    rec.note("n=%d" % n)
    rec.hard()


SUBS = [
    Sub("big", big_specs(), big, 8),
    Sub("long_runs", st.fixed_dictionaries(dict(
        op=st.sampled_from(["compile", "compile", "rav", "lrav"]), s=seeds,
        g=st.lists(seeds, min_size=2, max_size=2, unique=True),
        n=st.integers(1000, 4500))), long_runs, 8)
] + [
    Sub("history_" + op, specs([op]), history, 18) for op in sorted(W.RANDOM)
] + [
    Sub("fixed_" + op, specs([op]), history, 12)
    for op in sorted(W.FIXED_CALLS)
] + [
    Sub("varies_" + op, vary_specs(op), varies, 3) for op in sorted(VARY)
] + [
    Sub("processes", st.fixed_dictionaries(dict(
        w=W.worlds(), s=seeds, ops=st.just(sorted(W.CALLS)))),
        processes, 5),
]
