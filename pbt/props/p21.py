from hypothesis import strategies as st
from ..core import Sub
from .. import rav

RULE = ("RAV problems (gate set with placements and probabilities, length, "
        "threshold, budget, append probability, random state); non-trivial: "
        "a random start of at least one gate and at least two steps")

SUBS = [
    Sub("contract", rav.specs(False), rav.contract, 700),
    Sub("corners", rav.specs(False), rav.corners, 120),
    Sub("start", rav.start_specs(False), rav.start, 24),
    Sub("decoded", rav.word_specs(False), rav.decoded, 60),
]
