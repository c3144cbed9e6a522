import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O
from ..gen import (gates, Gate, placements, fl, same, check_params,
                   qubits_of, mspecs, mat, Unitary, UnitarySequenceEntry)

RULE = ("gate of 1..6 qubits x ordered placement x query history over system "
        "sizes up to 11 qubits; non-trivial: the placement is not the "
        "identity order on the leading qubits, or several sizes are queried")


@st.composite
def specs(draw):
    n = draw(st.sampled_from([3, 4, 2, 5, 1, 3, 4, 6]))
    if draw(st.integers(0, 39)) == 0:
        n = draw(st.integers(7, 9))
    k = min(n, draw(st.sampled_from([2, 1, 3, 2, 3, 4, 2, 3, 5, 6])))
    q = draw(placements(n, k))
    g = draw(gates(k))
    if draw(st.integers(0, 3)) == 0:
        g = ["inv", g]
    need = max(q) + 1
    sizes = draw(st.lists(st.integers(need, max(need, min(max(7, n), n + 1))),
                          min_size=1, max_size=4))
    return dict(g=g, q=q, n=sizes,
                box=draw(st.sampled_from(["list", "tuple", "array"])),
                between=draw(st.sampled_from(
                    ["none", "permute", "texts", "second", "errors"])))


def place(s, rec):
    g = Gate(s["g"])
    q = s["q"]
    box = {"list": list, "tuple": tuple, "array": np.array}[s["box"]]
    e = UnitarySequenceEntry(g.u, box(q))
    before = (g.u.get_matrix().copy(), g.u.get_display_name())
    kept = {}
    texts = {}
    for n in s["n"]:
        d = 2 ** n
        full = e.get_full_unitary(d)
        want = O.embed(g.m, q, n)
        same(full, want, "gate on %s of %d qubits" % (q, n))
        check(full.get_operation_name() == g.name, "name became",
              full.get_operation_name())
        check_params(full, g.params, "placed gate")
        disp = full.get_display_name()
        check(disp.endswith("†") == g.inv, "display", disp,
              "inverse expected:", g.inv)
        head = g.name + "[" + ", ".join(str(x) for x in q) + "]"
        check(disp.startswith(head), "display", disp, "expected", head)
        check(qubits_of(e, "entry") == q, "qubits became", e.get_apply_to())
        check(e.get_dimension() == 2 ** g.k, "dimension became",
              e.get_dimension())
        if n in kept:
            check(np.array_equal(full.get_matrix(), kept[n]),
                  "repeated query differs")
            check(disp == texts[n], "repeated display differs")
        kept[n] = full.get_matrix().copy()
        texts[n] = disp
        if s["between"] == "permute":
            p = getattr(e, "get_permute_matrix", np.eye)(d)
            p = np.asarray(p.todense() if hasattr(p, "todense") else p)
            check(np.array_equal(p @ p.T, np.eye(d)),
                  "not a permutation matrix")
        elif s["between"] == "texts":
            full.get_qasm(), full.get_jaqal(), full.inverse().get_qasm()
        elif s["between"] == "second":
            # another entry sharing the gate, on other qubits
            q2 = list(reversed(q))
            e2 = UnitarySequenceEntry(g.u, q2)
            same(e2.get_full_unitary(d), O.embed(g.m, q2, n),
                 "second placement on %s" % q2)
        elif s["between"] == "errors":
            small = 2 ** max(q)
            try:
                e.get_full_unitary(small)
            except Exception:
                pass
            else:
                check(False, "placed qubit", max(q), "in a system of",
                      max(q), "qubits")
    check(np.array_equal(g.u.get_matrix(), before[0])
          and g.u.get_display_name() == before[1], "gate was altered")
    rec.note("k=%d" % g.k, "n=%d" % max(s["n"]), s["between"],
             "ascending" if q == sorted(q) else "permuted")
    rec.hard(q != list(range(len(q))) or len(set(s["n"])) > 1)


def commute(s, rec):
    """Metamorphic: gates on disjoint qubits commute and their joint action
    is the tensor product placed on the concatenated qubits."""
    a, b = Gate(s["a"]), Gate(s["b"])
    n, q = s["n"], s["q"]
    qa, qb = q[:a.k], q[a.k:a.k + b.k]
    d = 2 ** n
    ua = UnitarySequenceEntry(a.u, qa).get_full_unitary(d)
    ub = UnitarySequenceEntry(b.u, qb).get_full_unitary(d)
    ab = UnitarySequenceEntry(a.u.tensor(b.u), qa + qb).get_full_unitary(d)
    want = O.embed(a.m, qa, n) @ O.embed(b.m, qb, n)
    same(ua.left_multiply(ub), want, "product of disjoint gates")
    same(ub.left_multiply(ua), want, "reversed product")
    same(ab, want, "tensor product placed on %s" % (qa + qb))
    rec.hard(qa + qb != sorted(qa + qb))


@st.composite
def commute_specs(draw):
    ka, kb = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3)]))
    n = draw(st.integers(ka + kb, 6))
    return dict(a=draw(gates(ka)), b=draw(gates(kb)), n=n,
                q=draw(placements(n, ka + kb)))


@st.composite
def wide_specs(draw):
    n = draw(st.sampled_from([11, 10, 11]))
    k = draw(st.sampled_from([1, 2, 3]))
    # with a qubit of a two-digit number
    q = draw(placements(n, k))
    if n == 11 and 10 not in q:
        q[draw(st.integers(0, k - 1))] = 10
    return dict(g=draw(gates(k)), q=q, n=[n], box="list", between="none")


SUBS = [Sub("wide", wide_specs(), place, 8), Sub("place", specs(), place, 1600),
        Sub("commute", commute_specs(), commute, 300)]
