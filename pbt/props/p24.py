import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from ..gen import (seeds, mspecs, mat, entries, build_entry, herm, hspecs,
                   Unitary, UnitarySequence, UnitarySequenceEntry)
from ..comp import Compiler
from .. import world as W
from .p23 import same

from stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm
from stoqcompiler.verification import Verification

RULE = ("a world of objects, 1..10 calls on it, everything passed in or "
        "obtained compared before and after; containers modified by their "
        "owner; sequences edited next to others that share their gates; "
        "non-trivial: at least two calls, a modified container, or an "
        "edited sequence with gates")


def everything(w):
    return dict(
        entries=[W.f_entry(e, w.d) for e in w.entries],
        wide=[W.f_entry(e, 2 * w.d) for e in w.entries[:2]],
        gate=W.f_unitary(w.gate), seq=W.f_seq(w.seq),
        terms=[W.f_term(t) for t in w.terms], ham=W.f_ham(w.ham),
        prims=[W.f_prim(p) for p in w.p.libs],
        target=W.f_unitary(w.p.target),
        probs=w.p.probs if w.p.probs is None else list(w.p.probs),
        counts=[w.p.libs.index(k) * 100 + v for k, v in w.counts.items()],
        sizes=[len(w.p.libs), len(w.entries), len(w.terms)],
        compiler=W.f_compiler(w.p.compiler, w.p))


def compare(a, b, what):
    for k in a:
        same(a[k], b[k], what, "changed %s:" % k)


@st.composite
def call_specs(draw):
    return dict(w=draw(W.worlds()), s=draw(seeds), ops=draw(
        W.histories(10)))


C = Compiler
V = Verification
RESULTS = {
    "compile": lambda w: w.p.compiler.compile(w.p.target, w.p.s["t"], 7),
    "layered": lambda w: w.p.compiler.compile_layered(
        w.p.target, w.counts, w.p.s["t"], 4),
    "rav": lambda w: V.generate_rav_sequence(
        w.d, w.p.libs, 3, w.p.s["t"], w.p.s["ap"], w.p.probs, 5),
    "lrav": lambda w: V.generate_layered_rav_sequence(
        w.d, w.counts, 2, w.p.s["t"], w.p.s["ap"], 4),
    "xeb": lambda w: V.generate_xeb_sequence(w.d, w.counts, 2),
    "entry": lambda w: [C.create_random_sequence_entry(
        w.d, w.p.libs, w.p.probs) for _ in range(2)],
    "layer": lambda w: C.create_random_layer(w.d, w.counts),
    "trotter": lambda w: w.ham.get_trotter_sequence(1.1, 3, randomize=True),
    "qdrift": lambda w: w.ham.get_qdrift_sequence(1.1, 5),
    "stoq": lambda w: w.ham.compile_stoq_sequence(
        0.8, 1.0, w.ham_target + 0.2 * (1 - w.ham_target), True),
    "hrav": lambda w: w.ham.compile_rav_sequence(2.0, 1.0, 0.05, True),
    "ideal": lambda w: w.ham.get_ideal_sequence(1.3, 3),
    "ordered": lambda w: w.ham.get_trotter_sequence(1.3, 3),
    "inverse": lambda w: w.seq.inverse(),
    "combine": lambda w: UnitarySequence.combine(w.seq, w.seq),
}


def w_result(r):
    if isinstance(r, UnitarySequence):
        return W.f_seq(r)
    if isinstance(r, (list, tuple, np.ndarray)):
        return [W.f_entry(e, 8) for e in r]
    return W.f_result(r)


def calls(s, rec):
    w = W.World(s["w"])
    raw = [w.p.m.copy()] + [np.array(w.herm(h)) for h in s["w"]["h"]]
    before = everything(w)
    ids = [id(x) for x in w.p.libs + w.terms + w.entries]
    W.reseed(s["s"])
    # results obtained on the way must not change either
    kept = []
    whole = []
    for op in s["ops"]:
        W.CALLS[op](w)
        if op in RESULTS:
            r = RESULTS[op](w)
            whole.append((op, r, w_result(r)))
        kept.append(w.p.compiler.compile(w.p.target, w.p.s["t"], 5)
                    if op == "compile" else w.seq.inverse()
                    if op == "inverse" else w.ham.get_ideal_sequence(1.0, 2)
                    if op == "ideal" else None)
        if kept[-1] is not None:
            r = kept[-1]
            r = r if isinstance(r, UnitarySequence) else r.compiled_sequence
            kept[-1] = (op, r, W.f_seq(r))
    compare(before, everything(w), "calling %s" % s["ops"])
    check(ids == [id(x) for x in w.p.libs + w.terms + w.entries],
          "calls exchanged objects in their arguments")
    for x in kept:
        if x is not None:
            same(x[2], W.f_seq(x[1]), "result of %s" % x[0],
                 "changed by later calls:")
    for op, r, f in whole:
        same(f, w_result(r), "result of %s" % op, "changed by later calls:")
    # and each result belongs to its owner
    for j, (op, r, f) in enumerate(whole):
        if isinstance(r, list):
            r.clear()
        elif isinstance(r, UnitarySequence):
            r.append_last(UnitarySequenceEntry(
                W.UnitaryDefinitions.rx(0.3), [0]))
        else:
            tamper(r.cost_by_step, "clear")
            r.compiled_sequence.append_first(UnitarySequenceEntry(
                W.UnitaryDefinitions.rx(0.3), [0]))
        for op2, r2, f2 in whole[j + 1:]:
            same(f2, w_result(r2), "result of %s" % op2,
                 "changed with that of %s:" % op)
    compare(before, everything(w), "changing the results of %s" % s["ops"])
    check(np.array_equal(raw[0], w.p.m), "calls changed the target array")
    rec.note("calls=%d" % len(s["ops"]))
    rec.hard(len(s["ops"]) >= 2)


def scramble(a):
    a[...] = a[::-1] * 2 + 5


@st.composite
def container_specs(draw):
    return dict(w=draw(W.worlds()), m=draw(mspecs(4)), h=draw(hspecs(2)),
                s=draw(seeds), arr=draw(st.booleans()))


def tamper(x, how, other=None):
    if how == "clear":
        x.clear()
    elif how == "pop":
        x.pop()
    elif how == "reverse":
        x.reverse()
    elif how == "double":
        x.extend(list(x))
    else:
        x[0] = x[-1] if other is None else other


def containers(s, rec):
    for how in ("replace", "clear", "pop", "reverse", "double"):
        tampered(s, rec, how)


def tampered(s, rec, how):
    w = W.World(s["w"])
    # matrices
    for a in (mat(s["m"]), mat(s["m"]).astype(np.complex64).astype(complex)):
        if not np.allclose(a @ a.conj().T, np.eye(4), atol=1e-9):
            continue
        u = Unitary(4, a, "G")
        f = W.f_unitary(u)
        scramble(a)
        same(f, W.f_unitary(u), "operation", "shares the matrix given:")
    for a in (np.eye(4), np.eye(4, dtype=int)):
        u = Unitary(4, a)
        f = W.f_unitary(u)
        scramble(a)
        same(f, W.f_unitary(u), "operation", "shares the matrix given:")
    a = herm(s["h"])
    t = HamiltonianTerm(a)
    f = W.f_term(t)
    scramble(a)
    same(f, W.f_term(t), "term", "shares the matrix given:")
    # the gate list of a sequence, and one obtained from it
    es = list(w.entries)
    if s["arr"]:
        arg = np.empty(len(es), dtype=object)
        arg[:] = es
    else:
        arg = es
    q = UnitarySequence(w.d, arg)
    read = UnitarySequence(w.d, list(w.entries))
    f = W.f_seq(q)
    p = q.product()
    got = q.get_sequence_entries()
    if s["arr"]:
        arg[:] = arg[::-1].copy()
        arg[0] = arg[-1]
    else:
        tamper(arg, how)
    tamper(got, how, w.entries[-1])
    same(f, W.f_seq(q), "sequence", "shares a gate list:")
    # the gates of a list obtained are not those of the sequence
    for x in (q, q.inverse(), UnitarySequence.combine(q, q)):
        f2 = W.f_seq(x)
        for y in x.get_sequence_entries():
            got = y.get_apply_to()
            if isinstance(got, list):
                got[:] = [0] * len(got)
            for k, v in (("unitary", W.UnitaryDefinitions.rx(0.123)),
                         ("full_unitary_by_dimension", {})):
                if hasattr(y, k):
                    setattr(y, k, v)
        same(f2, W.f_seq(x), "sequence", "shares the gates read from it:")
    tamper(read.get_sequence_entries(), how)
    same(f, W.f_seq(read), "sequence", "shares the gate list read from it:")
    q.append_last(w.entries[0])
    check(q.get_length() == f[1] + 1, "sequence of", f[1], "gates has",
          q.get_length(), "after adding one")
    check(p.get_dimension() == w.d, "product")
    # an empty list, not even one
    for arg in ([], np.empty(0, dtype=object)):
        x = UnitarySequence(w.d, arg)
        x.append_last(w.entries[0])
        x.append_first(w.entries[-1], save_undo=False)
        check(len(arg) == 0, "a sequence made from an empty list extends it")
        check(UnitarySequence(w.d).get_length() == 0 and UnitarySequence(
            w.d, arg).get_length() == 0, "a new sequence is not empty")
    arg = []
    x = UnitarySequence(w.d, arg)
    arg.append(w.entries[0])
    check(x.get_length() == 0 and len(x.get_sequence_entries()) == 0,
          "a sequence shares the empty list it was made from")
    # the qubit list of a placed gate
    e = s["w"]["es"][0]
    qs = list(e["q"])
    x = UnitarySequenceEntry(w.gate, qs)
    y = UnitarySequenceEntry(w.gate, tuple(e["q"]))
    if w.d > w.gate.get_dimension():
        qs[0] = next(i for i in range(w.n) if i not in e["q"])
    else:
        qs.reverse()
    if s["arr"]:
        qs.append(0)
    same(W.f_entry(y, w.d), W.f_entry(x, w.d), "placed gate",
         "shares the qubit list given:")
    # primitives and probabilities of a compiler
    libs = list(w.p.libs)
    pr = None if w.p.probs is None else list(w.p.probs)
    if s["arr"] and pr is not None:
        pr = np.array(pr)
    if s["arr"]:
        libs = np.array(libs)
    c = Compiler(w.d, libs, pr, append_probability=w.p.s["ap"],
                 annealing_rate=w.p.s["r"])
    f = W.f_compiler(c, w.p)
    other = W.UnitaryPrimitive(W.UnitaryDefinitions.rx(0.123))
    if s["arr"]:
        libs[:] = other
    else:
        libs[0] = other
        tamper(libs, how)
    if pr is not None:
        pr[0] = 0.0
        if not s["arr"]:
            tamper(pr, how)
    same(f, W.f_compiler(c, w.p), "compiler",
         "shares its primitive or probability list:")
    # terms of a Hamiltonian
    ts = list(w.terms)
    h = Hamiltonian(ts)
    f = W.f_ham(h)
    tamper(ts, how, HamiltonianTerm(np.diag(
        np.arange(2.0 ** w.s["hn"]) + 1)))
    same(f, W.f_ham(h), "Hamiltonian", "shares its term list:")
    rec.note("array" if s["arr"] else "list")
    rec.hard()


@st.composite
def edit_specs(draw):
    w = draw(W.worlds(sizes=(2, 1, 3)))
    k = draw(st.integers(2, 7))
    return dict(w=w, s=draw(seeds), make=[draw(st.sampled_from(
        ["gates", "inverse", "combine", "compile", "layered", "rav", "ideal",
         "twice", "reread", "append"])) for _ in range(k)],
        ops=draw(st.lists(st.tuples(
            st.sampled_from(["af", "al", "rf", "rl", "undo", "prod", "al",
                             "rl"]), st.booleans()), min_size=1,
            max_size=8)), pick=draw(st.integers(0, k - 1)))


def isolated(s, rec):
    """Sequences made in many ways from shared gates; one is edited."""
    w = W.World(s["w"])
    W.reseed(s["s"])
    live = [UnitarySequence(w.d, list(w.entries))]
    for m in s["make"]:
        last = live[-1]
        live.append({
            "gates": lambda: UnitarySequence(w.d, list(w.entries)),
            "inverse": lambda: last.inverse(),
            "combine": lambda: UnitarySequence.combine(live[0], last)
            if last.get_length() < 30 else live[0].inverse(),
            "compile": lambda: w.p.compiler.compile(
                w.p.target, w.p.s["t"], 8).compiled_sequence,
            "layered": lambda: w.p.compiler.compile_layered(
                w.p.target, w.counts, w.p.s["t"], 3).compiled_sequence,
            "rav": lambda: Verification.generate_rav_sequence(
                w.d, w.p.libs, 3, w.p.s["t"], max_step_count=4)
            .compiled_sequence,
            "ideal": lambda: UnitarySequence(
                w.d, live[0].get_sequence_entries()),
            "twice": lambda: UnitarySequence.combine(last, last)
            if last.get_length() < 20 else last.inverse(),
            "reread": lambda: UnitarySequence(
                w.d, last.get_sequence_entries()),
            "append": lambda: appended(w),
        }[m]())
    shots = [W.f_seq(q) for q in live]
    ents = [W.f_entry(e, w.d) for e in w.entries]
    i = 1 + s["pick"]
    q = live[i]
    n = 0
    saved = False
    for op, save in s["ops"]:
        if op in ("af", "al"):
            e = w.entries[n % len(w.entries)]
            (q.append_first if op == "af" else q.append_last)(
                e, save_undo=save)
            saved = saved or save
            n += 1
        elif op in ("rf", "rl"):
            if q.get_length():
                (q.remove_first if op == "rf" else q.remove_last)(
                    save_undo=save)
                saved = saved or save
                n += 1
        elif op == "prod":
            q.product()
        elif saved:
            q.undo()
            saved = False
    for j, (x, f) in enumerate(zip(live, shots)):
        if j != i:
            same(f, W.f_seq(x), "editing sequence %d (%s)" % (
                i, s["make"][i - 1]), "changed sequence %d (%s):" % (
                    j, "gates" if j == 0 else s["make"][j - 1]))
    same(ents, [W.f_entry(e, w.d) for e in w.entries], "editing",
         "changed the shared gates:")
    rec.note(s["make"][i - 1])
    rec.hard(n > 0)


def appended(w):
    q = UnitarySequence(w.d)
    for e in w.entries:
        q.append_last(e)
    return q


SUBS = [
    Sub("calls", call_specs(), calls, 170),
    Sub("containers", container_specs(), containers, 60),
    Sub("isolated", edit_specs(), isolated, 220),
]
