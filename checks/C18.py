"""Ripley tests. Calls of the uniform simulator made by the tests are observed where they
happen in this process: then every simulated function is recomputed from the simulated
pattern; besides, simulated functions are compared with reference simulations."""

import contextlib
import warnings

import joblib
import numpy as np
import shapely
from scipy import stats

import pointpats.distance_statistics as ds
import pointpats.random as pr
from checks import ripley
from checks.C14 import Uniform
from pv import gen
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["distance_statistics.py"]
ASSUMPTIONS = [
    "the tests take no seed: their simulations differ from run to run",
    "statistical decisions err with probability below 1e-10 each",
]

ALPHA = 1e-10
TESTS = dict(F=ds.f_test, G=ds.g_test, J=ds.j_test, K=ds.k_test, L=ds.l_test)
PLAIN = dict(F=ds.f, G=ds.g, J=ds.j, K=ds.k, L=ds.l)


@contextlib.contextmanager
def observed_simulator():
    """records the patterns drawn by the uniform simulator"""
    seen = []
    saved = []

    def wrap(fn):
        def poisson(hull, *args, **kwargs):
            out = fn(hull, *args, **kwargs)
            seen.append(np.array(out))
            return out

        return poisson

    for mod in (ds, pr):
        if hasattr(mod, "poisson"):
            saved.append((mod, mod.poisson))
            mod.poisson = wrap(mod.poisson)
    try:
        yield seen
    finally:
        for mod, fn in saved:
            mod.poisson = fn


def bounds(kind, p, empties, s, dist, slack, linear=False):
    """least and largest admissible values of a function of a pattern; nan: not judged"""
    n = len(p)

    def share(d):
        lo = (d[None] < s[:, None] - slack).mean(axis=1)
        hi = (d[None] < s[:, None] + slack).mean(axis=1)
        hi[-1] = (d <= s[-1] + slack).mean()
        return lo, hi

    if kind == "G":
        return share(ripley.nearest_other(p, dist))
    if kind == "F":
        return share(dist(empties, p).min(axis=1))
    if kind == "J":
        glo, ghi = share(ripley.nearest_other(p, dist))
        flo, fhi = share(dist(empties, p).min(axis=1))
        with np.errstate(divide="ignore", invalid="ignore"):
            lo, hi = (1 - ghi) / (1 - flo), (1 - glo) / (1 - fhi)
        bad = ~np.isfinite(lo) | ~np.isfinite(hi)
        lo[bad] = hi[bad] = np.nan
        return lo, hi
    w = np.ptp(p, axis=0)
    a = float(w[0] * w[1])
    d = dist(p, p)[np.triu_indices(n, 1)]
    lo, hi = ((d[None] < s[:, None] + e).sum(axis=1) * 2 * a / n**2 for e in (-slack, slack))
    if kind == "L":
        lo, hi = (np.sqrt(x / np.pi) - (s if linear else 0) for x in (lo, hi))
    return lo, hi


def within(v, lo, hi, scale=0.0):
    tol = 1e-9 * (np.abs(hi) + np.abs(lo) + scale) + 1e-300
    ok = (v >= lo - tol) & (v <= hi + tol)
    return bool((ok | np.isnan(lo)).all())


def formula(sims, obs):
    with np.errstate(invalid="ignore"):
        above = (sims >= obs).sum(axis=0)
        below = (sims <= obs).sum(axis=0)
    return (np.minimum(above, below) + 1) / (len(sims) + 1)


def shape_of(mon, res, m, keep, what):
    for x in ("support", "statistic", "pvalue", "simulations"):
        mon.expect(hasattr(res, x), what + ": fields of the result", got=res)
    s, v, p = (np.asarray(x, float) for x in (res.support, res.statistic, res.pvalue))
    mon.expect(s.shape == v.shape == p.shape and s.ndim == 1, what + ": one statistic and p-value per support value", got=(s.shape, v.shape, p.shape))
    if keep:
        sims = np.asarray(res.simulations, float)
        mon.expect(sims.shape == (m, len(s)), what + ": one simulated function per simulation", got=sims.shape, want=(m, len(s)))
        return s, v, p, sims
    mon.expect(res.simulations is None, what + ": simulations only on request", got=res.simulations)
    return s, v, p, None


def request(mon, rng, kind, p, nn, dist, name, area, hull):
    b = np.array(area.bounds)
    scale = float(np.hypot(*(b[2:] - b[:2])) / np.sqrt(len(p)) / 3)
    arg, want = ripley.support(mon, rng, scale, nn.max())
    kw = {}
    if arg is not None:
        kw["support"] = arg
    if hull is not None:
        kw["hull"] = hull
    if name != "euclidean":
        kw["metric"] = name
    linear = False
    if kind == "L" and rng.random() < 0.6:
        linear = bool(rng.random() < 0.7)
        kw["linearized"] = linear
    return kw, want, scale, linear


def pattern(mon, rng, nmin=4, nmax=25):
    p = ripley.events(mon, rng, nmin, nmax)
    if (np.ptp(p, axis=0) <= 1e-3 * gen.spread(p)).any():
        raise Skip
    return p


def metric_for(mon, rng, kind):
    if kind in "KL":
        # needs to be known to trees and to pairwise distances alike
        m = ripley.PAIR_METRICS[int(rng.choice(4, p=[0.5, 0.25, 0.2, 0.05]))]
        mon.feature(f"metric:{getattr(m[0], '__name__', m[0])}")
        return m
    return ripley.tree_metric(mon, rng, 0.03)


@scenario(SCENARIOS, 420, 9000)
def tests(mon, rng):
    kind = "FGJKL"[int(rng.integers(5))]
    mon.feature("test:" + kind)
    p = pattern(mon, rng)
    n = len(p)
    name, dist = metric_for(mon, rng, kind)
    hull, area = ripley.study_area(mon, rng, p)
    nn = ripley.nearest_other(p, dist)
    kw, want, scale, linear = request(mon, rng, kind, p, nn, dist, name, area, hull)
    m = int(rng.choice([1, 2, 9, 19] if rng.random() < 0.93 else [40, 60]))
    keep = bool(rng.random() < 0.7)
    if keep or rng.random() < 0.5:
        kw["keep_simulations"] = keep
    trunc = False
    if kind == "J":
        trunc = bool(rng.random() < 0.5)
        if not trunc or rng.random() < 0.5:
            kw["truncate"] = trunc
    with observed_simulator() as seen:
        res = mon.call(TESTS[kind], p, n_simulations=m, n_jobs=1, **kw)
    what = kind + " test"
    s, v, pv, sims = shape_of(mon, res, m, keep, what)
    cut = len(s)
    if not trunc:
        mon.expect(cut == len(want), what + ": every support value", got=cut, want=len(want))
    mon.close(s, want[:cut], what + ": support as asked for", rtol=1e-9, atol=1e-300)
    c = pv * (m + 1)
    mon.expect((np.abs(c - np.round(c)) < 1e-6).all() and (c > 0.5).all() and (c < m + 1.5).all(), what + ": p-values are counts over simulations + 1", got=pv)
    slack = 1e-9 * scale + 1e-13 * gen.mag(p) + 1e-13 * np.abs(area.bounds).max()
    if kind in "GKL":
        lo, hi = bounds(kind, p, None, want, dist, slack, linear)
        mon.expect(within(v, lo, hi, s.max() if linear else 0), what + ": the observed function", got=v, low=lo, high=hi)
        plain = {a: b for a, b in kw.items() if a in ("support", "metric", "linearized")}
        again = mon.call(PLAIN[kind], p, **plain)[1]
        mon.expect((np.asarray(again) == v).all(), what + ": statistic as that of the plain function", got=v, want=again)
    if sims is not None:
        mon.close(pv, formula(sims, v), what + ": p-value from the simulations", rtol=1e-9)
        if kind == "G":
            c = sims * n
            mon.expect((np.abs(c - np.round(c)) < 1e-6).all(), what + ": simulations of as many events", got=sims)
    # the patterns drawn, if they were
    empties = [x for x in seen if x.shape == (1000, 2)]
    drawn = [y for x in seen if x.shape != (1000, 2) for y in x.reshape(-1, *x.shape[-2:])]
    # nested observation: the simulator itself may be reached through two names
    uniq = []
    for y in drawn:
        if not any(y.shape == z.shape and (y == z).all() for z in uniq[-2:]):
            uniq.append(y)
    if len(uniq) != m:
        mon.feature("simulator not observed")
        return
    mon.feature("simulator observed")
    for y in uniq:
        mon.expect(y.shape == (n, 2), what + ": simulated patterns have the observed number of events", got=y.shape, want=n)
        far = shapely.distance(area, shapely.points(y)).max()
        mon.expect(far <= 1e-9 * np.abs(area.bounds).max(), what + ": simulated patterns lie in the hull", got=far)
    e = None
    if kind in "FJ":
        if not empties or any((x != empties[0]).any() for x in empties):
            return
        e = empties[0]
        far = shapely.distance(area, shapely.points(e)).max()
        mon.expect(far <= 1e-9 * np.abs(area.bounds).max(), what + ": empty space is that of the hull", got=far)
        lo, hi = bounds(kind, p, e, want, dist, slack)
        mon.expect(within(v, lo[:cut], hi[:cut]), what + ": the observed function", got=v, low=lo, high=hi)
    both = [bounds(kind, y, e, want, dist, slack, linear) for y in uniq]
    lo, hi = (np.array([b[i] for b in both])[:, :cut] for i in (0, 1))
    if sims is not None:
        for a in range(m):
            # (any order of the simulations)
            hit = [b for b in range(m) if within(sims[a], lo[b], hi[b], s.max() if linear and cut else 0)]
            mon.expect(hit, what + ": function of a simulated pattern", got=sims[a], want=lo[a])
    else:
        tol = 1e-9 * (np.abs(v) + np.abs(hi).max(axis=0) + (s.max() if linear and cut else 0)) + 1e-300
        with np.errstate(invalid="ignore"):
            sure = (np.minimum((lo >= v + tol).sum(axis=0), (hi <= v - tol).sum(axis=0)) + 1) / (m + 1)
            most = (np.minimum((hi >= v - tol).sum(axis=0), (lo <= v + tol).sum(axis=0)) + 1) / (m + 1)
        ok = ((pv >= sure - 1e-9) & (pv <= most + 1e-9)) | np.isnan(lo).any(axis=0)
        mon.expect(ok.all(), what + ": p-value from the simulations not kept", got=pv, low=sure, high=most)


@scenario(SCENARIOS, 150, 4000)
def supplied(mon, rng):
    """distances of the observed pattern given by the caller"""
    kind = "FGJKL"[int(rng.integers(5))]
    mon.feature("test:" + kind)
    p = pattern(mon, rng)
    n = len(p)
    d = ripley.euclid(p, p) * rng.choice([0.5, 1.0, 2.0])
    o = d.copy()
    np.fill_diagonal(o, np.inf)
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    far = ripley.euclid(p, rng.uniform(b[:2], b[2:], (int(rng.choice([7, n, 50])), 2)))
    gd = d if rng.random() < 0.5 else o.min(axis=1)
    fd = far if rng.random() < 0.5 else far.min(axis=0)
    given = dict(F=fd, G=gd, J=(gd, fd), K=d, L=d)[kind]
    if kind in "KL" and rng.random() < 0.5:
        given = d[np.triu_indices(n, 1)]
    scale = float(np.median(o.min(axis=1))) or 1.0
    arg, want = ripley.support(mon, rng, scale, ripley.nearest_other(p, ripley.euclid).max())
    kw = {} if arg is None else dict(support=arg)
    if kind == "L":
        kw["linearized"] = bool(rng.random() < 0.5)
    plain = dict(kw)
    if kind == "J":
        kw["truncate"] = plain["truncate"] = bool(rng.random() < 0.6)
    m = int(rng.choice([3, 9]))
    keep = bool(rng.random() < 0.7)
    res = mon.call(TESTS[kind], p, distances=given, n_simulations=m, n_jobs=1, keep_simulations=keep, **kw)
    s, v, pv, sims = shape_of(mon, res, m, keep, kind + " test")
    ws, wv = mon.call(PLAIN[kind], p, distances=given, **plain)
    mon.close(s, ws, kind + " test: support of the plain function of the same distances", rtol=1e-9, atol=1e-300)
    mon.close(v, wv, kind + " test: statistic of the plain function of the same distances", rtol=1e-12, atol=1e-300)
    if keep:
        mon.close(pv, formula(sims, v), kind + " test: p-value from the simulations", rtol=1e-9)
        if kind == "G":
            mon.expect((np.abs(sims * n - np.round(sims * n)) < 1e-6).all(), "G test: simulations of as many events", got=sims)


def reference(kind, rng, area, n, m, s, dist, linear):
    """reference simulations"""
    law = area.bounds
    e = None
    out = []

    def draw(k):
        got = np.empty((0, 2))
        while len(got) < k:
            q = rng.uniform(law[:2], law[2:], (4 * k, 2))
            got = np.r_[got, q[shapely.intersects_xy(area, q)]]
        return got[:k]

    for _ in range(m):
        if kind in "FJ":
            e = draw(1000)
        out.append(bounds(kind, draw(n), e, s, dist, 0.0, linear)[0])
    return np.array(out)


@scenario(SCENARIOS, 72, 1500)
def complete_randomness(mon, rng):
    """simulated functions against reference simulations in the same hull"""
    kind = "FGJKL"[int(rng.integers(5))]
    mon.feature("test:" + kind)
    p = pattern(mon, rng, 8, 20)
    name, dist = metric_for(mon, rng, kind)
    if callable(name):
        raise Skip
    hull, area = ripley.study_area(mon, rng, p)
    b = np.array(area.bounds)
    scale = float(np.hypot(*(b[2:] - b[:2])) / np.sqrt(len(p)) / 3)
    s = np.array([0.3, 0.6, 1.0, 1e9]) * scale
    kw = dict(support=s)
    linear = False
    if kind == "J":
        # (before anything may become undefined)
        kw = dict(support=s[:3], truncate=False)
        s = s[:3]
    if kind in "KL":
        kw = dict(support=s)
    if kind == "L":
        linear = bool(rng.random() < 0.5)
        kw["linearized"] = linear
        if linear:
            s = s[:3]
            kw["support"] = s
    if hull is not None:
        kw["hull"] = hull
    if name != "euclidean":
        kw["metric"] = name
    m = 120
    jobs = int(rng.choice([1, 1, 2, 4, -1]))
    mon.feature(f"n_jobs={jobs}")
    with joblib.parallel_config(backend="threading") if jobs != 1 else contextlib.nullcontext(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = mon.call(TESTS[kind], p, n_simulations=m, n_jobs=jobs, keep_simulations=True, **kw)
    sims = np.asarray(res.simulations, float)
    mon.expect(sims.shape == (m, len(s)), kind + " test: one simulated function per simulation", got=sims.shape)
    ref = reference(kind, rng, area, len(p), 240, s, dist, linear)
    for i in range(len(s)):
        x, y = sims[:, i], ref[:, i]
        if kind in "FJ":
            # the locations are shared by all simulations of one test
            if not np.isfinite(x).all() or not np.isfinite(y).all():
                continue
            if kind == "J" and 4 * len(p) / area.area * s[i] ** 2 > 2:
                # few of the locations are as far from the events: heavy tails
                continue
            top = 1 if kind == "F" else max(1.0, y.max())
            tol = 8 * np.sqrt(x.var() / m + y.var() / 240 + top**2 * 0.25 / 1000) + 1e-9
            mon.expect(abs(x.mean() - y.mean()) < tol, kind + " test: simulations as of complete randomness", got=x.mean(), want=y.mean(), tol=tol, at=i)
            if kind == "F" and x.std() > 0 and y.std() > 0:
                mon.expect(0.4 < x.std() / y.std() < 2.5, kind + " test: spread of the simulations", got=x.std(), want=y.std(), at=i) if i in (0, 1) else None
        else:
            q = stats.ks_2samp(np.round(x / scale**2, 9), np.round(y / scale**2, 9)).pvalue
            mon.expect(q > ALPHA, kind + " test: simulations as of complete randomness", p=q, got=x.mean(), want=y.mean(), at=i)
    if kind in "KL" and not linear:
        x = sims[:, -1]
        mon.expect(len(np.unique(x)) > m * 0.9, kind + " test: simulations differ from each other", got=len(np.unique(x)))


@scenario(SCENARIOS, 6, 24)
def separate_processes(mon, rng):
    """the simulations done by other processes"""
    kind = "GKL"[int(rng.integers(3))]
    p = rng.random((12, 2)) * 10
    g = shapely.Polygon([(0, 0), (30, 0), (30, 10)])
    s = np.array([0.5, 1.5, 1e6])
    m = 60
    res = mon.call(TESTS[kind], p, support=s, hull=g, n_simulations=m, n_jobs=2, keep_simulations=True)
    sv, v, pv, sims = shape_of(mon, res, m, True, kind + " test")
    mon.close(pv, formula(sims, v), kind + " test: p-value from the simulations", rtol=1e-9)
    ref = reference(kind, rng, g, 12, 300, s, ripley.euclid, False)
    for i in range(3):
        q = stats.ks_2samp(np.round(sims[:, i], 9), np.round(ref[:, i], 9)).pvalue
        mon.expect(q > ALPHA, kind + " test: simulations of other processes are complete randomness", p=q)
    if kind != "G":
        mon.expect(len(np.unique(sims[:, -1])) == m, kind + " test: processes do not repeat each other", got=len(np.unique(sims[:, -1])))


@scenario(SCENARIOS, 100, 2000)
def no_simulations(mon, rng):
    kind = "FGJKL"[int(rng.integers(5))]
    p = pattern(mon, rng)
    keep = bool(rng.random() < 0.5)
    m = int(rng.choice([0, 0, -3]))
    kw = dict(truncate=False) if kind == "J" else {}
    res = mon.call(TESTS[kind], p, n_simulations=m, keep_simulations=keep, n_jobs=1, **kw)
    mon.expect(mon.warned_with(UserWarning, "simulations"), "warned that nothing is simulated")
    s, v, pv, sims = shape_of(mon, res, 0, keep, kind + " test")
    mon.expect(np.isnan(pv).all() and len(pv) == 20, "p-values undefined without simulations", got=pv)
    mon.expect(len(v) == 20, "statistic without simulations", got=v)


@scenario(SCENARIOS, 10, 120)
def many(mon, rng):
    """many simulations, also the number of them that is used by default"""
    kind = "FGJKL"[int(rng.integers(5))]
    p = pattern(mon, rng, 4, 9)
    n = len(p)
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    big = float(np.hypot(*(b[2:] - b[:2])))
    s = np.array([0.1, 0.3, 0.5, 1e9]) * big
    kw = dict(support=s)
    if kind == "J":
        s = s[:3]
        kw = dict(support=s, truncate=False)
    if kind == "L":
        kw["linearized"] = False
    m = int(rng.choice([250, 640, 1001, 2003, -1], p=[0.3, 0.25, 0.2, 0.15, 0.1]))
    mon.feature(f"simulations:{m}", "many:" + kind)
    if m != -1:
        kw["n_simulations"] = m
    jobs = int(rng.choice([1, 3, -1]))
    if jobs != -1:
        kw["n_jobs"] = jobs
    with joblib.parallel_config(backend="threading") if jobs != 1 else contextlib.nullcontext(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = mon.call(TESTS[kind], p, keep_simulations=True, **kw)
    if m == -1:
        m = len(res.simulations)
        mon.expect(m >= 999, kind + " test: many simulations by default", got=m)
    sv, v, pv, sims = shape_of(mon, res, m, True, kind + " test")
    if kind == "J":
        ok = ~np.isnan(sims).any(axis=0) & ~np.isnan(v)
        mon.close(pv[ok], formula(sims[:, ok], v[ok]), kind + " test: p-value from the simulations", rtol=1e-9)
    else:
        mon.close(pv, formula(sims, v), kind + " test: p-value from the simulations", rtol=1e-9)
    # the later ones are like the earlier ones
    for i in range(len(s) - 1):
        x = sims[:, i]
        if np.isfinite(x).all():
            q = stats.ks_2samp(np.round(x[: m // 2], 9), np.round(x[m // 2 :], 9)).pvalue
            mon.expect(q > ALPHA, kind + " test: simulations alike throughout", p=q, at=i)
    if kind in "KL":
        x = sims[:, -1]
        mon.expect(np.isfinite(x).all() and len(np.unique(x)) > 0.95 * m, kind + " test: simulations differ from each other", got=len(np.unique(x)), m=m)
    if kind == "G":
        a = sims[:, -1]
        mon.expect((a == 1).all(), "G test: all events of a simulation have a neighbour", got=a)


@scenario(SCENARIOS, 24, 400)
def large(mon, rng):
    """patterns of hundreds of events"""
    kind = "FGJKL"[int(rng.integers(5))]
    n = int(rng.choice([130, 260, 420, 700, 1030], p=[0.2, 0.25, 0.25, 0.2, 0.1]))
    ext = rng.uniform(1, 100, 2)
    p = rng.random((n, 2)) * ext
    if rng.random() < 0.4:
        p[: n // 2] = p[0] + (p[: n // 2] - p[0]) * 0.2
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    area = shapely.box(*b)
    step = float(np.sqrt(area.area / n))
    s = np.linspace(0.1, 1.6, 6) * step if kind in "FGJ" else np.linspace(0.5, 6, 6) * step
    kw = dict(support=s)
    if kind == "J":
        kw["truncate"] = False
    if kind == "L":
        kw["linearized"] = bool(rng.random() < 0.5)
    m = 12
    mon.feature(f"events:{n}", "large:" + kind)
    res = mon.call(TESTS[kind], p, n_simulations=m, n_jobs=1, keep_simulations=True, **kw)
    sv, v, pv, sims = shape_of(mon, res, m, True, kind + " test")
    mon.close(sv, s, kind + " test: support as asked for", rtol=1e-9)
    ok = ~np.isnan(sims).any(axis=0) & ~np.isnan(v)
    mon.close(pv[ok], formula(sims[:, ok], v[ok]), kind + " test: p-value from the simulations", rtol=1e-9)
    if kind == "G":
        mon.expect((np.abs(sims * n - np.round(sims * n)) < 1e-6).all(), "G test: simulations of as many events", got=sims)
    if kind in "GKL":
        lo, hi = bounds(kind, p, None, s, ripley.euclid, 1e-9 * step, kw.get("linearized", False))
        mon.expect(within(v, lo, hi, s.max()), kind + " test: the observed function", got=v, low=lo, high=hi)
    again = mon.call(TESTS[kind], p, n_simulations=m, n_jobs=1, keep_simulations=True, **kw)
    both = np.r_[sims, np.asarray(again.simulations, float)]
    mon.expect(len(np.unique(both, axis=0)) == 2 * m, kind + " test: simulations differ from each other", got=len(np.unique(both, axis=0)), want=2 * m)
    ref = reference(kind, rng, area, n, 30, s, ripley.euclid, kw.get("linearized", False))
    for i in range(len(s)):
        x, y = both[:, i], ref[:, i]
        if np.isfinite(x).all() and np.isfinite(y).all():
            q = stats.ks_2samp(np.round(x, 9), np.round(y, 9)).pvalue
            mon.expect(q > ALPHA, kind + " test: simulations are complete randomness", p=q, at=i)
