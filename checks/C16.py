"""F, G and J at every support value against counts of exhaustive distances."""

import warnings

import numpy as np
import shapely
from scipy import stats

from checks import ripley
from pointpats import f, g, j
from pv import gen
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["distance_statistics.py", "geometry.py"]
ASSUMPTIONS = [
    "distances within a relative 1e-9 of a support value may count on either side where the package computes them",
    "statistical decisions err with probability below 1e-10 each",
]

ALPHA = 1e-10


def fractions(mon, got, want_support, d, what, slack):
    """support and values against the distances d"""
    mon.expect(isinstance(got, tuple) and len(got) == 2, what + ": support and values", got=got)
    s, v = np.asarray(got[0], float), np.asarray(got[1], float)
    mon.close(s, want_support, what + ": support as asked for", rtol=1e-9, atol=1e-300)
    mon.expect(v.shape == s.shape, what + ": one value per support value", got=v.shape, want=s.shape)
    n = d.size
    lo = (d[None] < s[:, None] - slack).sum(axis=1)
    hi = (d[None] < s[:, None] + slack).sum(axis=1) if slack else lo.copy()
    hi[-1] = (d <= s[-1] + slack).sum()
    c = v * n
    mon.expect((np.abs(c - np.round(c)) < 1e-6).all(), what + ": fractions of all distances", got=v, n=n)
    mon.expect((c >= lo - 1e-6).all() and (c <= hi + 1e-6).all(), what + ": fraction of distances closer than each support value", got=v, low=lo / n, high=hi / n, support=s)
    return s, v


@scenario(SCENARIOS, 700, 20000)
def nearest_neighbours(mon, rng):
    """G, computed distances"""
    p = ripley.events(mon, rng)
    name, dist = ripley.tree_metric(mon, rng)
    nn = ripley.nearest_other(p, dist)
    scale = float(np.median(nn)) or float(nn.max()) or 1.0
    arg, want = ripley.support(mon, rng, scale, nn.max())
    kw = {} if name == "euclidean" else dict(metric=name)
    if arg is not None:
        kw["support"] = arg
    x = p
    if rng.random() < 0.1 and name == "euclidean":
        mon.feature("coordinates: a tree")
        x = ripley.tree_of(p)
    got = mon.call(g, x, **kw)
    fractions(mon, got, want, nn, "G", 1e-9 * scale + 1e-13 * gen.mag(p))


@scenario(SCENARIOS, 400, 12000)
def nearest_neighbours_supplied(mon, rng):
    p = ripley.events(mon, rng)
    name, dist = ripley.tree_metric(mon, rng)
    d = dist(p, p).astype(float)
    nn = ripley.nearest_other(p, dist)
    eu = ripley.nearest_other(p, ripley.euclid)
    k = int(rng.integers(0, 3))
    if k == 0:
        given = nn
    elif k == 1:
        given = d
        if rng.random() < 0.3:
            # distances need not be symmetric, nor is there a diagonal to rely on
            given = d + rng.random(d.shape) * 0.5 * (d.mean() or 1)
            np.fill_diagonal(given, rng.choice([0, np.inf]))
            o = given.copy()
            np.fill_diagonal(o, np.inf)
            nn = o.min(axis=1)
    else:
        # whole numbers
        top = int(rng.choice([3, 50]))
        given = rng.integers(0, top, (len(p), len(p)))
        given = given + given.T
        np.fill_diagonal(given, 0)
        o = given.astype(float)
        np.fill_diagonal(o, np.inf)
        nn = o.min(axis=1)
        if rng.random() < 0.5:
            given = nn.astype(int)
    mon.feature(f"given:{given.ndim}d {given.dtype}")
    scale = float(np.median(nn)) or float(nn.max()) or 1.0
    arg, want = ripley.support(mon, rng, scale, eu.max())
    if rng.random() < 0.25:
        # support values that are distances themselves
        mon.feature("support: ties with distances")
        arg = want = np.unique(np.r_[0, rng.choice(nn, 5)])
    keep = given.copy()
    got = mon.call(g, p, distances=given, **({} if arg is None else dict(support=arg)))
    if given.ndim == 2:
        mon.expect(mon.warned_with(UserWarning, "full distance matrix"), "warned of the full matrix")
    mon.expect((given == keep).all(), "G: distances untouched")
    s, v = fractions(mon, got, want, nn, "G supplied", 0.0 if isinstance(arg, np.ndarray) else 1e-12 * scale)


@scenario(SCENARIOS, 400, 12000)
def empty_space_supplied(mon, rng):
    """F of given distances"""
    p = ripley.events(mon, rng)
    n = len(p)
    m = int(rng.choice([1, 2, n, 40]))
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    w = np.maximum(b[2:] - b[:2], 1e-3)
    q = rng.uniform(b[:2] - w * 0.2, b[2:] + w * 0.2, (m, 2))
    d = ripley.tree_metric(mon, rng)[1](p, q).astype(float)
    near = d.min(axis=0)
    eu = ripley.nearest_other(p, ripley.euclid)
    given = d if rng.random() < 0.5 else near
    if given.ndim == 2 and rng.random() < 0.2:
        given = np.asfortranarray(given)
    mon.feature(f"given:{given.ndim}d", "square" if given.shape == (n, n) else "")
    scale = float(np.median(near)) or 1.0
    arg, want = ripley.support(mon, rng, scale, eu.max())
    if rng.random() < 0.25:
        mon.feature("support: ties with distances")
        arg = want = np.unique(np.r_[0, rng.choice(near, 5)])
    got = mon.call(f, p, distances=given, **({} if arg is None else dict(support=arg)))
    mon.expect(mon.warned_with(UserWarning, "full distance matrix") == (given.shape == (n, n)), "warned of a square matrix only")
    fractions(mon, got, want, near, "F supplied", 0.0 if isinstance(arg, np.ndarray) else 1e-12 * scale)


def balls(p, d, name):
    """union of the balls of radius d around the events"""
    if d <= 0:
        return shapely.Polygon()
    if name in ("euclidean", "l2"):
        shapes = shapely.buffer(shapely.points(p), d, quad_segs=64)
    else:
        if name in ("chebyshev", "infinity"):
            u = np.array([(-1, -1), (1, -1), (1, 1), (-1, 1)], float)
        elif callable(name):
            u = np.array([(-1, 0), (0, -1 / 3), (1, 0), (0, 1 / 3)], float)
        else:
            u = np.array([(-1, 0), (0, -1), (1, 0), (0, 1)], float)
        shapes = shapely.polygons(p[:, None] + d * u[None])
    return shapely.union_all(shapes)


def coverage(p, area, name, s):
    """the exact F function: share of the study area closer than s to an event"""
    c = np.array(area.bounds)
    c, r = (c[:2] + c[2:]) / 2, float((c[2:] - c[:2]).max())
    area = shapely.transform(area, lambda x: (x - c) / r)
    q = np.unique((p - c) / r, axis=0)
    return np.array([shapely.intersection(balls(q, d / r, name), area).area for d in s]) / area.area


def binomial(mon, counts, n, prob, what, **kw):
    # (the polygonal discs are a little too small)
    prob = np.clip(prob, 0, 1)
    for c, q in zip(counts, prob):
        lo, hi = max(0.0, q - 2e-3 * q), min(1.0, q + 2e-3 * q + 1e-9)
        p = min(stats.binom.cdf(c, n, lo), stats.binom.sf(c - 1, n, hi))
        mon.expect(p > ALPHA, what, share=c / n, want=q, p=p, **kw)


@scenario(SCENARIOS, 240, 5000)
def empty_space(mon, rng):
    """F of its own random locations: the share of the study area near an event"""
    p = ripley.events(mon, rng, 3, 30)
    name, dist = ripley.tree_metric(mon, rng, 0.03)
    hull, area = ripley.study_area(mon, rng, p)
    nn = ripley.nearest_other(p, dist)
    b = np.array(area.bounds)
    scale = float(np.hypot(*(b[2:] - b[:2])) / np.sqrt(len(p)) / 3)
    arg, want = ripley.support(mon, rng, scale, nn.max())
    kw = {} if name == "euclidean" else dict(metric=name)
    if hull is not None:
        kw["hull"] = hull
    if arg is not None:
        kw["support"] = arg
    got = mon.call(f, p, **kw)
    mon.close(got[0], want, "F: support as asked for", rtol=1e-9, atol=1e-300)
    v = np.asarray(got[1], float)
    mon.expect(v.shape == want.shape and (np.diff(v) >= -1e-12).all() and ((v >= 0) & (v <= 1)).all(), "F: a distribution function", got=v)
    m = 1000
    c = v * m
    if np.abs(c - np.round(c)).max() > 1e-6:
        # (another number of random locations is as good)
        m = 5000 if np.abs(v * 5000 - np.round(v * 5000)).max() < 1e-6 else 100
        c = np.round(v * m)
    binomial(mon, np.round(c), m, coverage(p, area, name, want), "F: share of the study area closer than the support value", metric=str(name))


def quotient(gv, fv):
    with np.errstate(divide="ignore", invalid="ignore"):
        q = (1 - gv) / (1 - fv)
    return q


@scenario(SCENARIOS, 500, 14000)
def hazard_supplied(mon, rng):
    """J = (1 - G) / (1 - F) for given distances, with and without truncation"""
    p = ripley.events(mon, rng, 3)
    n = len(p)
    m = int(rng.choice([5, n, 40]))
    b = np.r_[p.min(axis=0), p.max(axis=0)]
    w = np.maximum(b[2:] - b[:2], 1e-3)
    q = rng.uniform(b[:2], b[2:] + 1e-9 * w, (m, 2))
    d = ripley.euclid(p, q)
    near = d.min(axis=0)
    full = ripley.euclid(p, p)
    nn = ripley.nearest_other(p, ripley.euclid)
    given = (nn if rng.random() < 0.5 else full, near if rng.random() < 0.5 else d)
    scale = float(np.median(near)) or 1.0
    arg, s = ripley.support(mon, rng, scale, nn.max())
    if rng.random() < 0.1:
        mon.feature("support: beyond all distances")
        arg = (10 * near.max(), 20 * near.max() + 1, 4)
        s = np.linspace(*arg)
    trunc = bool(rng.random() < 0.6)
    kw = {} if arg is None else dict(support=arg)
    if not trunc or rng.random() < 0.5:
        kw["truncate"] = trunc
    got = mon.call(j, p, distances=given, **kw)
    # both functions at the same support values, ties counting as the package's own
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kg = {} if arg is None else dict(support=arg)
        gv = np.asarray(mon.call(g, p, distances=given[0], **kg)[1])
        fv = np.asarray(mon.call(f, p, distances=given[1], **kg)[1])
    slack = 1e-12 * scale
    for v, dd in ((gv, nn), (fv, near)):
        lo = (dd[None] < s[:, None] - slack).sum(axis=1)
        hi = (dd[None] <= s[:, None] + slack).sum(axis=1)
        c = v * len(dd)
        mon.expect((c >= lo - 1e-6).all() and (c <= hi + 1e-6).all(), "J: parts", got=v)
    want = quotient(gv, fv)
    cut = len(s)
    if trunc:
        bad = ~np.isfinite(want)
        cut = int(bad.argmax()) if bad.any() else cut
    mon.feature("truncated" if cut < len(s) else "whole", f"truncate={trunc}")
    mon.expect(isinstance(got, tuple) and len(got) == 2, "J: support and values", got=got)
    mon.close(got[0], s[:cut], "J: support as asked for, cut at the first undefined value", rtol=1e-9, atol=1e-300)
    mon.close(got[1], want[:cut], "J: quotient of the complements", rtol=1e-9, atol=1e-12)


@scenario(SCENARIOS, 12, 200)
def hazard_of_many(mon, rng):
    """values next to one, of thousands of distances"""
    n, m = int(rng.choice([1500, 6000])), int(rng.choice([1500, 6000]))
    nn, near = rng.exponential(size=n), rng.exponential(size=m) * rng.choice([0.7, 1.0, 1.3])
    p = rng.random((n, 2))
    top = max(nn.max(), near.max())
    a, b = np.sort(nn), np.sort(near)
    s = np.unique(np.r_[0, np.linspace(0, top, 9), a[-4:] * (1 + 1e-9), b[-4:] * (1 + 1e-9)])
    mon.fp(s)
    gv, fv = np.searchsorted(a, s) / n, np.searchsorted(b, s) / m
    gv[-1] = (a <= s[-1]).mean()
    fv[-1] = (b <= s[-1]).mean()
    fractions(mon, mon.call(g, p, distances=nn, support=s), s, nn, "G supplied", 0.0)
    fractions(mon, mon.call(f, p, distances=near, support=s), s, near, "F supplied", 0.0)
    got = mon.call(j, p, distances=(nn, near), support=s, truncate=False)
    want = quotient(gv, fv)
    ok = np.isfinite(want)
    mon.close(got[0], s, "J: support as asked for", rtol=1e-12)
    mon.close(np.asarray(got[1])[ok], want[ok], "J: quotient of the complements", rtol=1e-8, atol=1e-12)
    got = mon.call(j, p, distances=(nn, near), support=s)
    cut = int((~ok).argmax()) if not ok.all() else len(s)
    mon.expect(len(got[1]) == cut == len(got[0]), "J: cut at the first undefined value", got=len(got[1]), want=cut)
    mon.close(got[1], want[:cut], "J: quotient of the complements", rtol=1e-8, atol=1e-12)


@scenario(SCENARIOS, 160, 3500)
def hazard(mon, rng):
    """J of its own random locations"""
    p = ripley.events(mon, rng, 5, 30)
    name, dist = ripley.tree_metric(mon, rng, 0.03)
    hull, area = ripley.study_area(mon, rng, p)
    nn = ripley.nearest_other(p, dist)
    b = np.array(area.bounds)
    scale = float(np.hypot(*(b[2:] - b[:2])) / np.sqrt(len(p)) / 3)
    top = min(scale, np.quantile(nn, 0.8) or scale)
    s = np.linspace(0, top, 8)
    trunc = bool(rng.random() < 0.5)
    kw = dict(support=(0, top, 8) if rng.random() < 0.5 else s, truncate=trunc)
    if name != "euclidean":
        kw["metric"] = name
    if hull is not None:
        kw["hull"] = hull
    got = mon.call(j, p, **kw)
    v = np.asarray(got[1], float)
    mon.close(got[0], s[: len(v)], "J: support", rtol=1e-9, atol=1e-300)
    if not trunc:
        mon.expect(len(v) == 8, "J: nothing cut without truncation", got=v)
    slack = 1e-9 * scale + 1e-13 * gen.mag(p)
    lo = (nn[None] < s[:, None] - slack).mean(axis=1)
    hi = (nn[None] < s[:, None] + slack).mean(axis=1)
    cover = coverage(p, area, name, s)
    judged = 0
    for i in range(len(v)):
        if lo[i] != hi[i] or lo[i] == 1 or not np.isfinite(v[i]) or i == 7:
            continue
        mon.expect(v[i] > 0, "J: positive while some event has no nearer neighbour", got=v)
        c = 1000 * (1 - (1 - lo[i]) / v[i])
        mon.expect(abs(c - round(c)) < 1e-4 or abs(5 * c - round(5 * c)) < 1e-3, "J: quotient of the complements of G and a share", got=c)
        binomial(mon, [round(c)], 1000, cover[i : i + 1], "J: quotient of the complements", metric=str(name), i=i)
        judged += 1
    if not judged:
        raise Skip


@scenario(SCENARIOS, 60, 1200)
def repeated(mon, rng):
    """a deterministic function"""
    p = ripley.events(mon, rng, 10, 30)
    if gen.spread(p) <= 0 or not gen.noncollinear(p):
        raise Skip
    s = np.linspace(0, gen.spread(p) / 3, 12)
    a, b = (np.asarray(mon.call(g, p, support=s)[1]) for _ in range(2))
    mon.expect((a == b).all(), "G: the same again", got=(a, b))
