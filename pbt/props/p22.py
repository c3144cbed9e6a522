import numpy as np
from hypothesis import strategies as st
from ..core import Sub, check
from .. import oracle as O, rav
from ..comp import Problem
from .p16 import blocks

from stoqcompiler.verification import Verification

RULE = ("layered RAV and XEB problems (layer composition, layer count, "
        "threshold, budget, append probability, random state); non-trivial: "
        "a random start of at least one gate and at least two steps, or an "
        "XEB sequence of at least two layers")


def xeb(s, rec):
    p = Problem(s)
    per = sum(p.counts)
    np.random.seed(s["s"])
    res = Verification.generate_xeb_sequence(p.d, p.layer(), s["len"])
    es, ms = rav.fresh(res, p.d)
    check(len(es) == per * s["len"], "XEB of", s["len"], "layers of", per,
          "gates has", len(es))
    check(list(res.cost_by_step) == [], "XEB has a cost trace")
    blocks(es, p.prims, p.counts, p.n, "XEB")
    gap = O.phase_gap(res.compiled_sequence.product().get_matrix(),
                      O.product(ms, p.d))
    check(gap < 2e-9, "XEB product differs from its gates by", gap)
    for i, pr in enumerate(p.prims):
        if pr.ranges and any(b - a > 1e-3 for a, b in pr.ranges):
            # gates that can be of this primitive only
            vals = [pr.values(e.get_full_unitary(p.d)) for e in es
                    if [q for q in p.prims if q.mismatch(
                        e, e.get_full_unitary(p.d), p.n) is None] == [pr]]
            vals = [v for v in vals if v is not None]
            for j, (a, b) in enumerate(pr.ranges):
                if b - a > 1e-3:
                    check(len({v[j] for v in vals}) == len(vals),
                          "XEB repeats a value of parameter", j,
                          "of primitive", i)
    rec.note("layers=%d" % s["len"])
    rec.hard(s["len"] >= 2 and per > 0)


def layers(s, rec):
    """Whole layers throughout, also across the seam."""
    p = Problem(s)
    res = rav.call(p, s)
    es, _ = rav.fresh(res, p.d)
    k = blocks(es, p.prims, p.counts, p.n, "layered RAV")
    check(k >= s["len"] or sum(p.counts) == 0, k, "layers of", s["len"])
    rec.hard(k > s["len"] > 0)


SUBS = [
    Sub("contract", rav.specs(True), rav.contract, 380),
    Sub("layers", rav.specs(True), layers, 150),
    Sub("corners", rav.specs(True), rav.corners, 70),
    Sub("xeb", rav.specs(True), xeb, 150),
    Sub("start", rav.start_specs(True), rav.start, 24),
    Sub("decoded", rav.word_specs(True), rav.decoded, 36),
]
