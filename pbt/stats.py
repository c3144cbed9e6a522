"""Statistical oracles. Every test has a false-alarm probability below
ALPHA on correct code, for every random state; runs are seeded, so a
verdict is a pure function of the code and VERIF_SEED."""
import math
import numpy as np
from scipy import stats as ss
from .core import check

ALPHA = 1e-11


def binom(count, n, p, what):
    """count successes in n independent trials of probability p."""
    if p <= 0:
        check(count == 0, what, "occurred", count, "times, expected never")
        return
    if p >= 1:
        check(count == n, what, "occurred", count, "of", n,
              "times, expected always")
        return
    tail = min(ss.binom.cdf(count, n, p), ss.binom.sf(count - 1, n, p))
    check(tail > ALPHA, what, "occurred", count, "times in", n,
          "trials, expected about", round(n * p, 1), "(tail %.1e)" % tail)


def multinomial(counts, probs, what):
    """Pearson's statistic of many draws, at a level that leaves room for
    its approximation."""
    n = sum(counts)
    live = [(c, p) for c, p in zip(counts, probs) if p > 0]
    check(n == sum(c for c, _ in live), what, "impossible ones occurred")
    if n < 500 or any(n * p < 50 for _, p in live) or len(live) < 2:
        return
    x = sum((c - n * p) ** 2 / (n * p) for c, p in live)
    tail = ss.chi2.sf(x, len(live) - 1)
    check(tail > ALPHA * 1e-2, what, "occurred", list(counts), "times in",
          n, "trials, expected about", [round(n * p, 1) for p in probs],
          "(chi-square tail %.1e)" % tail)


def dispersion(counts, size, p, what):
    """counts: independent Binomial(size, p) counts. Their spread about the
    mean, against exact Chernoff bounds for the sum of squares."""
    M = len(counts)
    if M < 2 or not 0 < p < 1 or size * p * (1 - p) < 0.5:
        return
    x = float(sum((c - size * p) ** 2 for c in counts))
    k = np.arange(size + 1)
    lw = ss.binom.logpmf(k, size, p)
    sq = (k - size * p) ** 2
    v = size * p * (1 - p)
    best = 0.0
    for f in (0.1, 0.3, 0.6, 1, 2, 4, 8, 20, 60, 0.03, 0.2, 0.4):
        for lam in (-f / v, 0.45 * f / v):
            if lam > 0 and x < M * v:
                continue
            if lam < 0 and x > M * v:
                continue
            mx = np.max(lw + lam * sq)
            lg = mx + np.log(np.sum(np.exp(lw + lam * sq - mx)))
            best = min(best, M * lg - lam * x)
    check(best > math.log(ALPHA), what, "vary by", round(x / M, 3),
          "(mean squared deviation of", M, "counts of", size,
          "), expected about", round(v, 3), "(log tail %.1f)" % best)


def bernstein(total, mean, var, what):
    """total of independent (or martingale) indicators with the given sum
    of means and variances: rigorous tail bound."""
    ln = math.log(2 / ALPHA)
    t = ln / 3 + math.sqrt(ln * ln / 9 + 2 * ln * var)
    check(abs(total - mean) <= t + 1e-6, what, "happened", total,
          "times, expected about", round(mean, 2), "+-", round(t, 2))


def lags(ids, p, what):
    """Independent draws of which two are the same with probability p: no
    distance in the series at which they are the same too often or rarely.
    The pairs compared at one distance are disjoint."""
    n = len(ids)
    code = {}
    a = np.array([code.setdefault(x, len(code)) for x in ids])
    for lag in range(1, n // 2 + 1):
        first = np.arange(n - lag)
        first = first[first % (2 * lag) < lag]
        k = int(np.sum(a[first] == a[first + lag]))
        m = len(first)
        if abs(k - m * p) > 6 * math.sqrt(m * p * (1 - p)):
            binom(k, m, p, what + ": the same at distance %d" % lag)


def fresh(values, what):
    """Values drawn from a continuous law: no two are the same. (Generators
    give 53 bits; a few coincidences are allowed for narrow ranges.)"""
    n = len(values)
    k = n - len(set(float(x) for x in values))
    check(k <= 6, what, "repeat:", k, "of", n, "occurred before")


def uniform(values, lo, hi, what):
    v = np.asarray(values, dtype=float)
    check(np.all(v >= lo) and np.all(v <= hi), what, "leave", (lo, hi))
    if hi > lo and len(v) >= 20:
        r = ss.kstest((v - lo) / (hi - lo), "uniform")
        check(r.pvalue > ALPHA, what, "are not uniform: KS statistic",
              round(float(r.statistic), 4), "on", len(v), "values")
    if hi - lo > 1e-6 * max(abs(lo), abs(hi)) and len(v) <= 20000:
        fresh(v, what)


def cdf(values, f, what):
    r = ss.kstest(np.asarray(values, dtype=float), f)
    check(r.pvalue > ALPHA, what, "do not follow the expected law: KS",
          round(float(r.statistic), 4), "on", len(values), "values")
    fresh(values, what)
