import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check, rejected
from .. import oracle as O
from ..gen import (entries, build_entry, same, check_entry, qubits_of, Model,
                   UnitarySequence, UnitarySequenceEntry, UnitaryDefinitions)

RULE = ("history of up to 250 operations (append/remove at either end with "
        "or without undo state, undo, product, other reads, refused edits) "
        "on a sequence over a pool of shared gates, against a plain-list "
        "model; non-trivial: at least two edits with a product read between "
        "or before edits, or an undo that restores a state")

READS = ["prod", "prod", "get", "len", "text", "inv", "comb"]


@st.composite
def op(draw, pool):
    k = draw(st.sampled_from(
        ["af", "al", "af", "al", "rf", "rl", "rf", "rl", "undo", "undo",
         "read", "read", "bad"]))
    if k in ("af", "al"):
        return [k, draw(st.integers(0, pool - 1)), draw(st.sampled_from(
            [True, True, False, None]))]
    if k in ("rf", "rl"):
        return [k, draw(st.sampled_from([True, True, False, None]))]
    if k == "read":
        return [draw(st.sampled_from(READS))]
    if k == "bad":
        return [k, draw(st.sampled_from(["af", "al"])),
                draw(st.sampled_from(["qubit", "type", "big"]))]
    return [k]


@st.composite
def specs(draw):
    n = draw(st.sampled_from([2, 1, 2, 3, 1, 3, 4, 5]))
    pool = [draw(entries(n)) for _ in range(draw(st.integers(1, 4)))]
    most = draw(st.sampled_from([5, 5, 5, 5, 5, 5, 5, 20, 100]))
    init = draw(st.lists(st.integers(0, len(pool) - 1),
                         min_size=most // 3 if most > 5 else 0,
                         max_size=most))
    lo, hi = draw(st.sampled_from([(1, 12), (10, 30), (25, 80), (1, 12), (5, 30),
                                 (20, 80), (1, 20), (100, 250)]))
    return dict(n=n, pool=pool, init=init,
                how=draw(st.sampled_from(["list", "array", "default"])),
                ops=draw(st.lists(op(len(pool)), min_size=lo, max_size=hi)))


def bad_edit(seq, n, end, kind, pool):
    f = seq.append_first if end == "af" else seq.append_last
    if kind == "qubit":
        e = UnitarySequenceEntry(UnitaryDefinitions.rx(0.3), [n])
    elif kind == "big":
        e = UnitarySequenceEntry(UnitaryDefinitions.gms(n + 1),
                                 list(range(n + 1)))
    else:
        e = UnitaryDefinitions.rx(0.3)
    check(rejected(lambda: f(e)), "ill-formed edit accepted:", kind)


def run(s, rec):
    n = s["n"]
    d = 2 ** n
    built = [build_entry(e) for e in s["pool"]]
    lib = [b[0] for b in built]
    mods = [b[1] for b in built]
    mats = [m.full(n) for m in mods]
    cur = list(s["init"])
    given = [lib[i] for i in cur]
    if s["how"] == "default":
        cur = []
        seq = UnitarySequence(d)
    elif s["how"] == "array":
        arr = np.empty(len(given), dtype=object)
        arr[:] = given
        seq = UnitarySequence(d, arr)
    else:
        seq = UnitarySequence(d, given)
    undo = None

    def prod():
        return O.product([mats[i] for i in cur], d)

    def light(what):
        check(seq.get_length() == len(cur), what, "length is",
              seq.get_length(), "expected", len(cur))

    def full(what):
        got = seq.get_sequence_entries()
        check(len(got) == len(cur), what, "holds", len(got),
              "gates, expected", len(cur))
        for j, (e, i) in enumerate(zip(got, cur)):
            w = "%s gate %d" % (what, j)
            check(qubits_of(e, w) == mods[i].q, w, "is on",
                  e.get_apply_to(), "expected", mods[i].q)
            u = e.get_full_unitary(d)
            same(u, mats[i], w)
            check(u.get_operation_name() == mods[i].name, w, "is named",
                  u.get_operation_name())

    edits = reads = restored = between = 0
    for o in s["ops"]:
        k = o[0]
        if k in ("af", "al"):
            e, save = lib[o[1]], o[2]
            f = seq.append_first if k == "af" else seq.append_last
            f(e) if save is None else f(e, save_undo=save)
            if save is not False:
                undo = list(cur)
            cur.insert(0 if k == "af" else len(cur), o[1])
            edits += 1
            between += bool(reads)
        elif k in ("rf", "rl"):
            save = o[1]
            f = seq.remove_first if k == "rf" else seq.remove_last
            f() if save is None else f(save_undo=save)
            if cur:
                if save is not False:
                    undo = list(cur)
                cur.pop(0 if k == "rf" else -1)
                edits += 1
                between += bool(reads)
        elif k == "undo":
            if undo is None:
                check(rejected(seq.undo), "undo without a saved state")
            else:
                seq.undo()
                cur, undo = undo, None
                restored += 1
        elif k == "prod":
            same(seq.product(), prod(), "product")
            reads += 1
        elif k == "get":
            full("sequence")
        elif k == "text":
            for t in (seq.get_qasm(), seq.get_jaqal(),
                      seq.get_display_output()):
                check(len(t.rstrip("\n").split("\n")) == len(cur) + 1,
                      "text lines:", t)
        elif k == "inv":
            same(seq.inverse().product(), prod().conj().T, "inverse product")
            reads += 1
        elif k == "comb":
            same(UnitarySequence.combine(seq, seq).product(),
                 prod() @ prod(), "combined product")
            reads += 1
        elif k == "bad":
            bad_edit(seq, n, o[1], o[2], lib)
        light(k)
    full("final sequence")
    same(seq.product(), prod(), "final product")
    same(UnitarySequence(d, seq.get_sequence_entries()).product(), prod(),
         "final product recomputed")
    check(seq.get_dimension() == d, "dimension", seq.get_dimension())
    # the saved state is still there, and only once
    if undo is None:
        check(rejected(seq.undo), "undo without a saved state")
    else:
        seq.undo()
        cur, undo = undo, None
        full("after final undo")
        same(seq.product(), prod(), "product after final undo")
        check(rejected(seq.undo), "second undo accepted")
    full("end")
    same(seq.product(), prod(), "product at the end")
    rec.note(s["how"], "init>32" if len(s["init"]) > 32 else "init",
             "ops<%d" % (10 * (len(s["ops"]) // 10 + 1)))
    rec.hard(edits >= 2 and (between >= 1 or restored >= 1))


SUBS = [Sub("run", specs(), run, 900)]
