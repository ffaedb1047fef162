"""Space-time event sets, thresholds and their exhaustive pair counts."""

import itertools

import geopandas as gpd
import numpy as np
from scipy import stats

from pv import gen
from pv.core import Skip


def events(mon, rng, n, kinds=None):
    """coordinates (n, 2), times (n, 1), and whether all values are whole"""
    k = int(rng.integers(0, 4)) if kinds is None else int(rng.choice(kinds))
    if k == 0:
        m = int(rng.integers(2, 9))
        s = rng.integers(0, m, (n, 2)).astype(float)
        if rng.random() < 0.3:
            s = s.astype(int)
    elif k == 1:
        s = rng.integers(-50, 50, (n, 2)) * 1.0
    else:
        s = gen.points(rng, n, mon=mon)
    j = int(rng.integers(0, 6))
    if j == 0:
        t = rng.integers(0, max(2, n // 2), n)
    elif j == 1:
        t = rng.permutation(n) * int(rng.integers(1, 4)) - 7
    elif j == 2:
        t = rng.random(n) * 10.0 ** rng.integers(-2, 4) - rng.integers(0, 3)
    elif j == 3:
        t = rng.integers(0, 3, n).astype(float)
    elif j == 4:
        # times following the location
        t = np.argsort(np.argsort(s[:, 0] + rng.normal(size=n) * np.ptp(s[:, 0]) * 0.1))
    else:
        t = np.full(n, 5) if rng.random() < 0.3 else rng.integers(0, 1000, n)
    mon.feature(f"space:{k}", f"time:{j}", "n" + gen.size_class(n))
    return s, t.reshape(-1, 1), k < 2


def distances(s):
    s = np.asarray(s, float)
    d = s[:, None, :] - s[None, :, :]
    return np.sqrt((d * d).sum(axis=2))


def threshold(mon, rng, d, name):
    """a threshold clear of rounding: on an exact whole distance or inside of a gap"""
    v = np.unique(d[np.triu_indices(len(d), 1)])
    k = int(rng.integers(0, 8)) if len(d) < 120 or rng.random() < 0.5 else 7
    top = float(v[-1])
    if k == 0:
        mon.feature(name + ":0")
        return 0.0
    if k == 1:
        mon.feature(name + ":beyond")
        return top * 1.5 + 1.0
    if k in (2, 3):
        sq = v**2
        exact = v[(v == np.round(v)) & (v < 1e6) & (sq == np.round(sq))]
        if len(exact):
            mon.feature(name + ":exact")
            return float(rng.choice(exact))
    if k == 7 and top > 0:
        # hardly above or below a distance
        h = float(rng.choice(v[v > 0])) + float(rng.choice([-2e-9, 2e-9, -2e-9, 2e-9, 1e-7])) * top
        if h > 0 and np.abs(v - h).min() > 1e-9 * top:
            mon.feature(name + ":next to")
            return h
    q = float(np.quantile(d[np.triu_indices(len(d), 1)], rng.choice([0.05, 0.2, 0.5, 0.8])))
    w = np.r_[0.0, v, top * 1.2 + 1.0]
    i = min(int(np.searchsorted(w, q, side="right")), len(w) - 1)
    while i < len(w) - 1 and w[i] - w[i - 1] <= 1e-6 * w[i]:
        i += 1
    mon.feature(name + ":gap")
    return float(w[i - 1] + (w[i] - w[i - 1]) * (0.3 + 0.4 * rng.random()))


def close(d, h, whole):
    """which pairs are within h, events not being their own neighbours"""
    if not whole:
        off = np.abs(d - h)[np.triu_indices(len(d), 1)]
        if h and (off < 1e-10 * max(d.max(), h)).any() and (off != 0).any():
            bad = (off < 1e-10 * max(d.max(), h)) & (d[np.triu_indices(len(d), 1)] != np.round(d[np.triu_indices(len(d), 1)]))
            if bad.any():
                raise Skip
    c = d <= h
    np.fill_diagonal(c, False)
    return c


def time_distances(t):
    t = np.asarray(t, float).ravel()
    return np.abs(t[:, None] - t[None, :])


def setup(mon, rng, n, kinds=None):
    s, t, whole = events(mon, rng, n, kinds)
    ds, dt = distances(s), time_distances(t)
    delta = threshold(mon, rng, ds, "delta")
    tau = threshold(mon, rng, dt, "tau")
    if whole and rng.random() < 0.3 and float(delta).is_integer():
        delta = int(delta)
    cs = close(ds, delta, whole)
    ct = close(dt, tau, False)
    # other units of space and time (exact factors)
    if rng.random() < 0.08:
        t, tau = t * (u := 2.0 ** float(rng.choice([-50, -17, -7, 9, 40]))), tau * u
        mon.feature("time unit")
    if rng.random() < 0.08:
        s, delta = s * (u := 2.0 ** float(rng.choice([-50, -17, -7, 9, 40]))), delta * u
        mon.feature("space unit")
    return s, t, delta, tau, cs, ct


def arrays(rng, s, t):
    """the same events in other memory layouts"""
    if rng.random() < 0.3:
        s, _ = gen.array_layout(rng, s)
    if rng.random() < 0.2:
        t = np.array(t)
        t.setflags(write=False)
    return s, t


def permuted(rng, cs, ct, reps, focal=None):
    """statistics of randomly reassigned times (global, unordered pairs)"""
    n = len(cs)
    out = np.empty(reps)
    for r in range(reps):
        p = rng.permutation(n)
        out[r] = (cs & ct[np.ix_(p, p)]).sum() / 2
    return out


def exact_distribution(cs, ct):
    n = len(cs)
    vals = {}
    for p in itertools.permutations(range(n)):
        p = list(p)
        v = int((cs & ct[np.ix_(p, p)]).sum() // 2)
        vals[v] = vals.get(v, 0) + 1
    tot = sum(vals.values())
    return {k: c / tot for k, c in vals.items()}


ALPHA = 1e-12


def drawn_anew(mon, sims, p_equal, title):
    """no realization repeats an earlier one more often than by chance"""
    sims = np.round(np.asarray(sims, float), 9)
    if len(sims) < 60 or p_equal > 0.6:
        return
    i = np.arange(len(sims))
    for lag in range(1, len(sims) // 2 + 1):
        same = sims[lag:] == sims[:-lag]
        for part in (0, 1):
            # pairs without a common member
            own = same[(i[:-lag] // lag) % 2 == part]
            mon.expect(stats.binom.sf(own.sum() - 1, len(own), p_equal) > 1e-13, title, lag=lag, equal=int(own.sum()), of=len(own), p=p_equal)
    mon.feature("drawn anew")


def chance_of_equal(ref):
    """an upper bound on the chance that two values of a distribution are equal"""
    _, c = np.unique(np.round(np.asarray(ref, float), 9), return_counts=True)
    f = c / len(ref)
    return float(min(1.0, 1.3 * (f * f).sum() + 0.02))


def binomial_ok(count, trials, p):
    """is a count plausible for this probability"""
    if p <= 0:
        return count == 0
    if p >= 1:
        return count == trials
    return min(stats.binom.cdf(count, trials, p), stats.binom.sf(count - 1, trials, p)) > ALPHA


def two_proportions_ok(a, n, b, m):
    """are a of n and b of m plausible for one probability (given a + b)"""
    x = stats.hypergeom(n + m, a + b, n)
    return min(x.cdf(a), x.sf(a - 1)) > ALPHA


def frame(rng, s, t, ids=None):
    """the same events as a projected frame, among other columns, and its time column"""
    s = np.asarray(s, float)
    name = ("when", "T", "time")[int(rng.integers(3))]
    cols = {"other": np.arange(len(s)), name: np.asarray(t).ravel(), "tail": 1.5}
    ix = ids if ids is not None else rng.permutation(len(s)) * 3
    return gpd.GeoDataFrame(cols, geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs="EPSG:32633", index=ix), name
