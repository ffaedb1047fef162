"""Realizations of the legacy process classes: number, keys, sizes, location, kind, clusters."""

import numpy as np
import shapely
from scipy import stats
from scipy.sparse.csgraph import connected_components
from scipy.spatial.distance import pdist, squareform

from pointpats import PointPattern, PoissonClusterPointProcess, PoissonPointProcess, as_window, poly_from_bbox
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["process.py", "window.py"]
ASSUMPTIONS = ["statistical decisions err with probability below 1e-10 each"]

ALPHA = 1e-10


def arrays(mon, p, samples, as_pp, w, g):
    """the realizations as arrays, after judging what all of them have in common"""
    mon.expect(mon.warned_with(DeprecationWarning), "deprecation warning")
    mon.expect(sorted(p.realizations) == list(range(samples)), "one realization per sample: keyed from zero", got=list(p.realizations), want=samples)
    mon.expect(sorted(p.parameters) == list(range(samples)), "parameters of every realization", got=p.parameters)
    out = []
    for i in range(samples):
        r = p.realizations[i]
        if as_pp:
            mon.expect(isinstance(r, PointPattern), "realization: a point pattern", got=type(r))
            mon.expect(r.window is w, "realization: in the given window", got=r.window)
            mon.expect(r.n == p.parameters[i]["n"], "realization: size of the pattern", got=r.n, want=p.parameters[i])
            r = r.points.values if r.n else np.empty((0, 2))
        else:
            mon.expect(isinstance(r, np.ndarray), "realization: an array", got=type(r))
        r = np.asarray(r, float)
        mon.expect(r.shape == (p.parameters[i]["n"], 2), "realization: as many events as recorded", got=r.shape, want=p.parameters[i])
        if len(r):
            tol = 1e-9 * np.abs(g.bounds).max()
            mon.expect((shapely.distance(g, shapely.points(r)) <= tol).all(), "realization: inside the window", got=r[shapely.distance(g, shapely.points(r)) > tol][:3])
            mon.expect(len(np.unique(r, axis=0)) == len(r), "realization: no event repeated", got=r)
        out.append(r)
    for a in range(samples):
        for b in range(a):
            if len(out[a]) and len(out[b]):
                mon.expect(not (out[a][:1] == out[b][:1]).all(), "realizations differ")
    return out


@scenario(SCENARIOS, 250, 6000)
def uniform(mon, rng):
    w, g = gen.window(mon, rng)
    n = gen.now_and_then(rng, mon, rng.choice([1, 2, 5, 40]), 500, 0.03)
    samples = int(rng.choice([1, 2, 5, 9]))
    over = bool(rng.random() < 0.5)
    as_pp = bool(rng.random() < 0.5)
    kw = dict(conditioning=over, asPP=as_pp)
    if rng.random() < 0.2:
        kw = {}
        over = as_pp = False
    mon.feature(f"conditioning={over}", f"asPP={as_pp}", f"samples={samples}")
    p = mon.call(PoissonPointProcess, w, n, samples, **kw)
    arrays(mon, p, samples, as_pp, w, g)
    if not over:
        mon.expect(all(p.parameters[i]["n"] == n for i in range(samples)), "recorded size is n without conditioning", got=p.parameters)


def poisson_counts(mon, x, mean, what):
    """x: counts of independent Poisson variates"""
    x = np.asarray(x)
    t = x.sum()
    m = mean * len(x)
    p = min(stats.poisson.cdf(t, m), stats.poisson.sf(t - 1, m))
    mon.expect(p > ALPHA, what + ": mean", got=x.mean(), want=mean, p=p)
    if x.mean() > 0:
        d = ((x - x.mean()) ** 2).sum() / x.mean()
        p = min(stats.chi2.cdf(d, len(x) - 1), stats.chi2.sf(d, len(x) - 1))
        mon.expect(p > ALPHA, what + ": dispersion of a Poisson variate", got=x.var() / x.mean(), p=p)


@scenario(SCENARIOS, 32, 500)
def counts(mon, rng):
    """conditioned numbers follow the Poisson law"""
    w = as_window(poly_from_bbox([0, 0, 10, 10]))
    k = 200
    if rng.random() < 0.5:
        n = int(rng.choice([1, 3, 12, 700]))
        k = 60 if n > 100 else k
        p = mon.call(PoissonPointProcess, w, n, k, conditioning=True)
        poisson_counts(mon, [len(p.realizations[i]) for i in range(k)], n, "events")
    else:
        parents = int(rng.choice([2, 5, 60]))
        n = parents * 3 - int(rng.integers(0, 2))
        p = mon.call(PoissonClusterPointProcess, w, n, parents, 0.1, k, conditioning=True)
        c = -(-n // parents)
        poisson_counts(mon, [p.num_parents[i] for i in range(k)], parents, "parents")
        mon.expect(all(len(p.realizations[i]) == c * p.num_parents[i] for i in range(k)), "events per parent", got=[len(x) for x in p.realizations.values()][:5])


@scenario(SCENARIOS, 250, 6000)
def clusters(mon, rng):
    """any window and radius"""
    w, g = gen.window(mon, rng)
    b = np.array(g.bounds)
    s = float((b[2:] - b[:2]).max())
    parents = int(rng.choice([1, 2, 3, 7, 30]))
    n = int(rng.choice([parents, parents + 1, 2 * parents, 5 * parents - 1, 30, 300] if rng.random() < 0.1 else [parents, parents + 1, 2 * parents, 5 * parents - 1, 30]))
    n = max(n, parents)
    samples = int(rng.choice([1, 2, 3, 9]))
    over = bool(rng.random() < 0.4)
    as_pp = bool(rng.random() < 0.5)
    keep = bool(rng.random() < 0.4)
    r = float(s * rng.choice([0.001, 0.05, 0.3]))
    kw = dict(keep=keep, conditioning=over, asPP=as_pp)
    if rng.random() < 0.2:
        kw = {}
        over = as_pp = keep = False
    mon.feature(f"conditioning={over}", f"asPP={as_pp}", f"keep={keep}", f"n % parents {'=' if n % parents == 0 else '>'} 0")
    p = mon.call(PoissonClusterPointProcess, w, n, parents, r, samples, **kw)
    arrays(mon, p, samples, as_pp, w, g)
    c = -(-n // parents)
    mon.expect(p.children == c, "children per parent", got=p.children, want=c)
    mon.expect(sorted(p.num_parents) == list(range(samples)), "number of parents of every realization", got=p.num_parents)
    for i in range(samples):
        if over:
            mon.expect(p.parameters[i]["n"] == c * p.num_parents[i], "recorded size: parents times children", got=p.parameters[i], parents=p.num_parents[i])
        else:
            mon.expect(p.parameters[i]["n"] == n and p.num_parents[i] == parents, "recorded size is n without conditioning", got=p.parameters[i])


def components(x, reach):
    k, lab = connected_components(squareform(pdist(x)) <= reach)
    return [x[lab == a] for a in range(k)]


@scenario(SCENARIOS, 80, 2000)
def structure(mon, rng):
    """clusters so small that they are apart from each other beyond doubt"""
    r = 10.0 ** rng.integers(-2, 2)
    lo = rng.normal(size=2) * rng.choice([0, 1, 100]) * r
    w = as_window(poly_from_bbox([*lo, *(lo + 1e6 * r)]))
    parents = int(rng.choice([2, 5, 10]))
    c = int(rng.choice([2, 8, 30]))
    n = parents * c - int(rng.choice([0, 0, 1]))
    over = bool(rng.random() < 0.3)
    p = mon.call(PoissonClusterPointProcess, w, n, parents, r, 2, conditioning=over)
    for i in range(2):
        x = np.asarray(p.realizations[i], float)
        if len(x) < 2:
            continue
        comps = components(x, 2.1 * r)
        rounds = 3 if len(x) % c or n % parents else 2
        mon.expect(-(-len(x) // c) <= len(comps) <= rounds * p.num_parents[i], "one cluster per parent", got=len(comps), parents=p.num_parents[i])
        mon.expect(all(len(q) <= c for q in comps), "clusters of at most the children of one parent", got=[len(q) for q in comps], children=c)
        for q in comps:
            rad = shapely.minimum_bounding_radius(shapely.multipoints((q - q[0]) / r))
            mon.expect(rad <= 1 + 1e-6, "cluster within the radius of one parent", got=rad * r, radius=r)
        big = [shapely.minimum_bounding_radius(shapely.multipoints((q - q[0]) / r)) for q in comps if len(q) >= 25]
        if len(big) >= 2:
            # 25 uniform points of a disc reach over half of its radius beyond doubt
            mon.expect(min(big) > 0.5, "clusters as wide as the radius", got=big)


@scenario(SCENARIOS, 40, 800)
def parents_kept(mon, rng):
    """one child per parent: pairs of events are parents with their child, if parents are kept"""
    r = 10.0 ** rng.integers(-2, 2)
    w = as_window(poly_from_bbox([0, 0, 1e7 * r, 1e7 * r]))
    n = int(rng.choice([120, 120, 400]))
    keep = bool(rng.random() < 0.5)
    mon.feature(f"keep={keep}")
    p = mon.call(PoissonClusterPointProcess, w, n, n, r, 1, keep=keep)
    x = np.asarray(p.realizations[0], float)
    mon.expect(len(x) == n, "size with or without parents", got=len(x))
    d = pdist(x)
    pairs = d[d < 3 * r]
    if keep:
        # (30 expected, the probability of fewer than 5 is below 1e-10)
        mon.expect(len(pairs) >= 5, "parents kept: on request", got=len(pairs))
        mon.expect((pairs <= r * (1 + 1e-9)).all(), "children within the radius", got=pairs.max(), radius=r)
    else:
        mon.expect(len(pairs) == 0, "parents kept: only on request", got=len(pairs))


@scenario(SCENARIOS, 24, 400)
def all_parents_kept(mon, rng):
    """a realization of a kept pattern before it is cut to n: every parent and its children"""
    r = 1.0
    w = as_window(poly_from_bbox([0, 0, 1e7, 1e7]))
    parents, c = int(rng.choice([6, 15, 80])), 4
    p = mon.call(PoissonClusterPointProcess, w, parents * c, parents, r, 1, keep=True)
    x = np.asarray(mon.call(p.realize, parents * c), float)
    comps = components(x, 2.1 * r)
    mon.expect(len(comps) == parents, "a cluster per parent", got=len(comps))
    for q in comps:
        mon.expect(len(q) == c + 1, "parent and children", got=len(q))
        m = squareform(pdist(q)).max(axis=1)
        mon.expect(m.min() <= r * (1 + 1e-9), "children within the radius of the parent kept", got=m)
