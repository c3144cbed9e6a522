import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, stats
from ..comp import (problems, Problem, check_trace, gate_key, letter_specs,
                    Words, decode)
from ..gen import Guard, mat, seeds, Unitary, UnitaryPrimitive

from stoqcompiler.compiler import Compiler, CompilerAction

RULE = ("one seeded compilation rerun with every budget 0..N, one long run "
        "with one step more, or one run "
        "whose every state is decoded from the cost trace; non-trivial: the "
        "run changes its sequence at least three times")


def prefix(s, rec):
    p = Problem(s, Guard())
    per = 1 if p.counts is None else sum(p.counts)
    prev = None
    prev_cost = None
    adds = rems = stays = 0
    for k in range(s["steps"] + 1):
        res = p.run(steps=k)
        cost = [float(c) for c in res.cost_by_step]
        es = res.compiled_sequence.get_sequence_entries()
        keys = [gate_key(e, p.d) for e in es]
        _, dist = check_trace(res, p.m, p.d, s["t"], k, "budget %d" % k)
        if prev is None:
            check(keys == [] and cost == [], "budget 0 gives", len(keys),
                  "gates and", len(cost), "costs")
            prev, prev_cost, prev_dist = keys, cost, dist
            continue
        check(cost[:len(prev_cost)] == prev_cost, "budget", k,
              "does not continue the run of budget", k - 1)
        new = len(cost) - len(prev_cost)
        if new == 0:
            check(keys == prev, "no step taken but the sequence changed")
            break
        check(new == 1, "budget", k, "takes", new, "more steps")
        if keys == prev:
            stays += 1
            check(abs(cost[-1] - prev_dist) < 1e-9, "unchanged sequence but "
                  "cost went from", prev_dist, "to", cost[-1])
        elif len(keys) == len(prev) + per:
            check(keys[per:] == prev or keys[:-per] == prev, "step", k,
                  "added gates but not at an end, or changed others")
            adds += 1
        elif len(keys) == len(prev) - per:
            check(keys == prev[per:] or keys == prev[:-per], "step", k,
                  "removed gates but not from an end, or changed others")
            rems += 1
        else:
            check(False, "step", k, "went from", len(prev), "to", len(keys),
                  "gates,", per, "per edit")
        check(abs(cost[-1] - dist) < 1e-9, "cost", cost[-1],
              "but distance", dist)
        prev, prev_cost, prev_dist = keys, cost, dist
    rec.note("layered" if p.counts else "plain",
             *["add"] * bool(adds) + ["remove"] * bool(rems)
             + ["unchanged"] * bool(stays))
    rec.hard(adds + rems >= 3)


def free(s, rec):
    """A run with annealing rate 0 accepts everything, so its steps show
    the proposals: append probability, ends, and gates chosen."""
    w = Words(dict(s, r=0.0))
    res = w.run(s["steps"], s["s"])
    cost = list(res.cost_by_step)
    check_trace(res, w.target_m, w.d, None, s["steps"])
    ap = s["ap"]
    n = app = 0
    ends = [0, 0]          # appends: distinguishable, at the first end
    rends = [0, 0]
    count = 0
    word = ()
    for before, dist, moves, word in decode(w.lt, w.target_m, cost):
        count += 1
        n += 1
        if word == before:
            check(not before, "step", count, "rejected although the "
                  "annealing rate is 0")
            continue
        if len(word) > len(before):
            app += 1
            if word[1:] == before and word[:-1] == before:
                continue
            ends[0] += 1
            ends[1] += word[1:] == before
        else:
            if before[1:] == before[:-1]:
                continue
            rends[0] += 1
            rends[1] += word == before[1:]
    if count == len(cost):
        want = [w.names[i] for i in w.lt.spelled(word)]
        check(w.final(res) == want, "returned", w.final(res)[:12],
              "but its steps lead to", want[:12])
    stats.binom(app, n, ap, "appending")
    stats.binom(ends[1], ends[0], 0.5, "appending at the first position")
    stats.binom(rends[1], rends[0], 0.5, "removing the first position")
    rec.note("layered" if s["lay"] else "plain",
             "decoded" if count == len(cost) else "partly decoded")
    rec.hard(app >= 3)


def extremes(s, rec):
    """Append probability 1 never removes; 0 never adds."""
    for a in CompilerAction:
        check(bool(CompilerAction.is_append(a)) == a.name.startswith("Append")
              and bool(CompilerAction.is_remove(a)) == a.name.startswith(
                  "Remove"), "action", a, "is misclassified")
    s = dict(s, ap=1.0, r=0.0, steps=12)
    w = Words(s)
    res = w.run(12, s["s"])
    per = sum(s["c"]) if s["lay"] else 1
    check(res.compiled_sequence.get_length() == per * len(res.cost_by_step),
          "append probability 1 gave", res.compiled_sequence.get_length(),
          "gates in", len(res.cost_by_step), "steps")
    w = Words(dict(s, ap=0.0))
    res = w.run(12, s["s"])
    check(res.compiled_sequence.get_length() == 0,
          "append probability 0 added gates")
    rec.hard()


def long(s, rec):
    """One step more of a long run: the sequence and trace as they were but
    for one edit, whatever length or number of steps has been reached."""
    us = [UnitaryPrimitive(Unitary(2, mat(dict(k="haar", d=2, s=x)),
                                   "G%d" % i)) for i, x in enumerate(s["g"])]
    target = Unitary(2, np.diag([1, 1j]))
    grow = s["how"] == "grow"

    def run(n):
        np.random.seed(s["s"])
        c = Compiler(2, us, None, 1.0 if grow else 0.6, 0.0 if grow else 1e-4)
        if s["lay"]:
            r = c.compile_layered(target, {u: 1 for u in us}, None, n)
        else:
            r = c.compile(target, None, n)
        es = r.compiled_sequence.get_sequence_entries()
        return ([e.get_full_unitary(2).get_operation_name() for e in es],
                list(r.cost_by_step))
    n, per = s["n"], len(us) if s["lay"] else 1
    (a, ca), (b, cb) = run(n), run(n + 1)
    if grow:
        check(len(a) == per * len(ca), "append probability 1 gave", len(a),
              "gates in", len(ca), "steps")
    check(cb[:len(ca)] == ca, "budget", n + 1, "does not continue the run of",
          n)
    if len(ca) == n:
        check(len(cb) == n + 1 and (
            a == b and not grow or len(b) == len(a) + per
            and a in (b[per:], b[:-per]) or len(b) == len(a) - per
            and b in (a[per:], a[:-per])), "step", n + 1, "went from",
            len(a), "to", len(b), "gates, not by one edit at an end")
        m = O.product([us[int(x[1:])].get_unitary().get_matrix() for x in b],
                      2)
        dist = O.dist(m, target.get_matrix())
        check(abs(dist - cb[-1]) < 1e-6, "cost", cb[-1], "of step", n + 1,
              "but distance", dist)
    rec.note(s["how"], "gates<%d" % (100 * (len(a) // 100 + 1)))
    rec.hard()


@st.composite
def long_specs(draw):
    how = draw(st.sampled_from(["grow", "anneal"]))
    lay = draw(st.integers(0, 3)) == 0
    return dict(how=how, lay=lay, s=draw(seeds),
                g=draw(st.lists(seeds, min_size=2, max_size=3, unique=True)),
                n=draw(st.integers(60, 480)) // (3 if lay else 1)
                if how == "grow" else draw(st.integers(300, 1800)))


SUBS = [
    Sub("long", long_specs(), long, 12),
    Sub("prefix", problems(max_steps=20), prefix, 130),
    Sub("free", letter_specs(200, rate=st.just(0.0)), free, 42),
    Sub("extremes", letter_specs(12), extremes, 40),
]
