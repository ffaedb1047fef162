"""Event sets of 3 to 60 events with and without ties, transformation constants and
powers, k and thresholds; statistics by exhaustive pair lists, p-values against exact
permutation distributions (few events) and reference permutations (many)."""

import itertools

import numpy as np
from pointpats import jacquez, knox, mantel, modified_knox
from scipy import stats

from checks import st
from pv.core import Skip, scenario

FILES = ["spacetime.py"]
ASSUMPTIONS = ["statistical verdicts are given at error rates of 1e-12 per comparison"]
SCENARIOS = []


def relabelled(rng, n, fn, limit):
    """values of a statistic under all, or many random, reassignments of times"""
    if n <= 5:
        return np.array([fn(np.array(p)) for p in itertools.permutations(range(n))]), True
    return np.array([fn(rng.permutation(n)) for _ in range(limit)]), False


def tail_ok(rng, c, R, ref, exact, stat, eps, same=False):
    """is the number c of R permuted statistics at or above the observed one plausible

    same: which of the references are of the very same parts, and so equal to the last digit
    """
    # (ties with the observed value may be decided either way by rounding, if there is any)
    hi, lo = int((ref >= stat - eps).sum()), int((same | (ref > stat + eps if eps else ref >= stat)).sum())
    m = len(ref)
    if exact:
        return stats.binom.sf(c - 1, R, hi / m) > st.ALPHA and stats.binom.cdf(c, R, lo / m) > st.ALPHA
    up = c / R <= hi / m or st.two_proportions_ok(c, R, hi, m)
    down = c / R >= lo / m or st.two_proportions_ok(c, R, lo, m)
    return up and down


def count_of(mon, p, R):
    p = float(np.ravel(p)[0])
    c = p * (R + 1) - 1
    mon.expect(abs(c - round(c)) < 1e-7 and -1e-7 < c < R + 1e-7, "p-value is a share of permutations", p=p, R=R)
    return int(round(c))


def size(rng, mon=None):
    if mon is not None and mon.index % 40 == 7:
        return (180, 60, 420)[mon.index // 40 % 3]
    return int(rng.choice([3, 4, 5, 8, 15, 30, 60], p=[0.1, 0.2, 0.2, 0.2, 0.15, 0.1, 0.05]))


def reps(rng, n):
    return int(rng.choice([0, 1, 19, 99])) if n > 15 else int(rng.choice([0, 19, 99, 199, 399]))


def result(mon, got, R):
    if not R:
        mon.expect(np.ndim(got) == 0 and not isinstance(got, dict), "bare statistic without permutations", got=got)
        return float(got), None
    mon.expect(isinstance(got, dict) and set(got) == {"stat", "pvalue"}, "statistic and p-value", got=got)
    return float(got["stat"]), got["pvalue"]


@scenario(SCENARIOS, 160, 6000)
def mantels(mon, rng):
    n = size(rng)
    s, t, _ = st.events(mon, rng, n)
    ds, dt = st.distances(s), st.time_distances(t)
    flat = bool(rng.random() < 0.1)
    i, j = np.tril_indices(n, -1)
    if rng.random() < 0.4:
        con = {}
        scon, spow, tcon, tpow = 1.0, -1.0, 1.0, -1.0
    else:
        spow, tpow = (float(rng.choice([-2, -1, -0.5, 1, 2])) for _ in range(2))
        scon, tcon = (float(rng.choice([0.5, 1, 10])) if w < 0 or rng.random() < 0.5 else 0.0 for w in (spow, tpow))
        con = dict(scon=scon, spow=spow, tcon=tcon, tpow=tpow)
    a, b = (ds[i, j] + scon) ** spow, (dt[i, j] + tcon) ** tpow
    for v in (a, b):
        if len(v) < 2 or np.std(v) < 1e-4 * np.abs(v).max() or not np.isfinite(v).all():
            raise Skip
    A, B = (ds + scon) ** spow if spow > 0 or scon > 0 else ds, (dt + tcon) ** tpow

    def corr(x, y):
        x, y = x - x.mean(), y - y.mean()
        return float((x * y).sum() / np.sqrt((x * x).sum() * (y * y).sum()))

    R = min(reps(rng, n), 99)
    default = rng.random() < 0.2
    u = t.ravel() if flat else t  # (one dimension serves as well)
    got = mon.call(mantel, s, u, **con) if default else mon.call(mantel, s, u, R, **con)
    R = 99 if default else R
    stat, p = result(mon, got, R)
    want = corr(a, b)
    mon.close(stat, want, "correlation of transformed distances", rtol=0, atol=1e-8)
    if R:
        c = count_of(mon, p, R)
        ref, exact = relabelled(rng, n, lambda q: corr(a, B[np.ix_(q, q)][i, j]), 400)
        mon.expect(tail_ok(rng, c, R, ref, exact, want, 1e-8), "p-value of reassigned times", count=c, R=R, share=(ref >= want - 1e-8).mean())


@scenario(SCENARIOS, 16, 300)
def influential(mon, rng):
    """one event makes the correlation: wherever it is listed, its time is reassigned as the others' are"""
    n = int(rng.choice([12, 40, 70, 110]))
    h = (0, n - 1, int(rng.integers(n)))[mon.index % 3]
    s, t = rng.normal(size=(n, 2)), rng.normal(size=(n, 1))
    s[h], t[h] = s[h] + [60, 25], t[h] + 60
    mon.feature(f"events={n}", f"listed:{mon.index % 3}")
    ds, dt = st.distances(s), st.time_distances(t)
    i, j = np.tril_indices(n, -1)
    R = 99
    stat, p = result(mon, mon.call(mantel, s, t, R, scon=0.0, spow=1.0, tcon=0.0, tpow=1.0), R)
    want = np.corrcoef(ds[i, j], dt[i, j])[0, 1]
    mon.close(stat, want, "correlation of transformed distances", rtol=0, atol=1e-8)
    c = count_of(mon, p, R)
    # only with its own time at that event can the correlation come near: one reassignment in n
    mon.expect(st.binomial_ok(c, R, 1 / n) or c <= R / n, "p-value of reassigned times", count=c, R=R, share=1 / n)


def nearest(d, k):
    """for each event: the sure k nearest others, and all that may be among them"""
    n = len(d)
    sure, may = np.zeros((n, n), bool), np.zeros((n, n), bool)
    e = d + np.where(np.eye(n, dtype=bool), np.inf, 0)
    for i in range(n):
        kth = np.sort(e[i])[k - 1]
        tol = 1e-9 * max(kth, 1e-300)
        may[i] = e[i] <= kth + tol
        sure[i] = (e[i] < kth - tol) if may[i].sum() > k else may[i]
    return sure, may


@scenario(SCENARIOS, 120, 4000)
def jacquezs(mon, rng):
    n = size(rng)
    s, t, _ = st.events(mon, rng, n)
    if rng.random() < 0.7:
        # no ties
        t = (rng.permutation(n) ** 2 * 1.01 + rng.random(n) * 0.3).reshape(-1, 1)
        s = rng.normal(size=(n, 2)) * 10.0 ** rng.integers(-1, 4)
    if rng.random() < 0.25:
        t = t * 2.0 ** float(rng.choice([-40, -12, 12]))
        mon.feature("time unit")
    k = int(rng.integers(1, min(n - 1, 6 if mon.index % 4 else 14) + 1))
    ds, dt = st.distances(s), st.time_distances(t)
    (s1, s2), (t1, t2) = nearest(ds, k), nearest(dt, k)
    tied = (s1 != s2).any() or (t1 != t2).any()
    if tied and max(np.unique(np.asarray(s, float), axis=0, return_counts=True)[1].max(), np.unique(t, return_counts=True)[1].max()) > k:
        raise Skip  # more coincident events than neighbours
    mon.feature("tied" if tied else "untied", f"k{k}")
    R = 0 if n > 30 else min(reps(rng, n), 99 if n < 15 else 19)
    default = n < 9 and rng.random() < 0.15
    got = mon.call(jacquez, s, t, k) if default else mon.call(jacquez, s, t, k, R)
    R = 99 if default else R
    stat, p = result(mon, got, R)
    lo = (s1 & t1).sum()
    hi = np.minimum((s2 & t2).sum(1), k).sum()
    mon.expect(lo <= stat <= hi and stat == int(stat), "common nearest neighbours", got=stat, want=(lo, hi))
    if not tied:
        mon.expect(stat == lo, "common nearest neighbours without ties", got=stat, want=lo)
    if R:
        c = count_of(mon, p, R)
        if not tied:
            ref, exact = relabelled(rng, n, lambda q: (s1 & t1[np.ix_(q, q)]).sum(), 400)
            mon.expect(tail_ok(rng, c, R, ref, exact, stat, 0.0), "p-value of reassigned times", count=c, R=R, share=(ref >= stat).mean())


@scenario(SCENARIOS, 220, 8000)
def modified(mon, rng):
    n = size(rng, mon)
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    if n > 400:
        mon.feature("dense")
        delta, tau = float(st.distances(s).max()) * 1.1 + 1, float(st.time_distances(t).max()) * 1.1 + 1
        cs = ct = ~np.eye(n, dtype=bool)
    R = reps(rng, n) if n < 400 else 1
    default = n < 16 and rng.random() < 0.15
    got = mon.call(modified_knox, s, t, delta, tau) if default else mon.call(modified_knox, s, t, delta, tau, R)
    R = 99 if default else R
    stat, p = result(mon, got, R)

    def value(c):
        return ((cs & c).sum() - (cs.sum(1) * c.sum(1)).sum() / (n - 1)) / 2

    want = value(ct)
    mon.close(stat, want, "observed minus expected close pairs", rtol=1e-9, atol=1e-9)
    if R:
        c = count_of(mon, p, R)
        parts, exact = relabelled(rng, n, lambda q: ((cs & ct[np.ix_(q, q)]).sum(), (cs.sum(1) * ct[np.ix_(q, q)].sum(1)).sum()), 400)
        ref = (parts[:, 0] - parts[:, 1] / (n - 1)) / 2
        same = (parts == [(cs & ct).sum(), (cs.sum(1) * ct.sum(1)).sum()]).all(axis=1)
        mon.expect(tail_ok(rng, c, R, ref, exact, want, 1e-9, same), "p-value of reassigned times", count=c, R=R, share=(ref >= want - 1e-9).mean())


@scenario(SCENARIOS, 220, 8000)
def plain(mon, rng):
    n = size(rng, mon)
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    R = reps(rng, n)
    default = n < 16 and rng.random() < 0.15
    got = mon.call(knox, s, t, delta, tau) if default else mon.call(knox, s, t, delta, tau, R)
    R = 99 if default else R
    mon.expect(mon.warned_with(FutureWarning, "deprecated"), "announced as deprecated")
    want = (cs & ct).sum() // 2
    mon.expect(isinstance(got, dict) and set(got) == ({"stat", "pvalue"} if R else {"stat"}), "statistic, and p-value with permutations", got=got)
    mon.expect(float(got["stat"]) == want, "close pairs", got=got["stat"], want=want)
    if R:
        c = count_of(mon, got["pvalue"], R)
        mon.expect(c <= R / 2, "the smaller tail", count=c, R=R)
        ref, exact = relabelled(rng, n, lambda q: (cs & ct[np.ix_(q, q)]).sum() // 2, 400)
        ok = tail_ok(rng, c, R, ref, exact, want, 0.0) or tail_ok(rng, R - c, R, ref, exact, want, 0.0)
        mon.expect(ok, "p-value of reassigned times", count=c, R=R, share=(ref >= want).mean())
