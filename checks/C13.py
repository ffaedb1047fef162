"""Sizes, order, centres, radii and spreads of clusters; close pairs of Strauss patterns."""

import numpy as np
import shapely
from scipy import stats
from scipy.spatial.distance import pdist

import pointpats.random as pr
from checks.C11 import make_hull
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["random.py"]
ASSUMPTIONS = ["statistical decisions err with probability below 1e-9 each"]

ALPHA = 1e-10


def split(n, k):
    """sizes as equal as possible, larger ones first"""
    return [n // k + (i < n % k) for i in range(k)]


def to_edge(hull, p):
    if isinstance(hull, shapely.Geometry):
        return float(shapely.distance(hull.boundary, shapely.Point(p)))
    return float(min(p[0] - hull[0], p[1] - hull[1], hull[2] - p[0], hull[3] - p[1]))


def size_args(rng, n, reps, area):
    if reps == 1 and rng.random() < 0.3:
        return dict(size=n)
    return dict(size=(n, reps))


@scenario(SCENARIOS, 500, 12000)
def uniform_clusters(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "holed", "multi"))
    k = int(rng.integers(2, 7)) if rng.random() < 0.85 else int(rng.integers(7, 25))
    n = int(k * rng.choice([1, 2, 5, 12]) + rng.integers(0, k))
    reps = int(rng.integers(1, 5))
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    mode = int(rng.integers(0, 4))
    kw = size_args(rng, n, reps, area)
    if mode == 0:
        r = None
    elif mode == 1:
        r = float(s * rng.choice([0.01, 0.05, 0.2]))
        if r >= 1 and rng.random() < 0.3:
            r = int(r)
        kw["cluster_radius"] = r
    else:
        # very different radii in a random order
        r = s * 10 ** rng.uniform(-3, -0.7, k)
        kw["cluster_radius"] = r if mode == 2 else r.tolist()
    mon.feature(f"radius:{('default', 'number', 'array', 'list')[mode]}", f"n/k={n // k}", f"reps={reps}")
    out = np.asarray(mon.call(pr.cluster_poisson, hull, n_seeds=k, **kw, rng=int(rng.integers(2**31))))
    mon.expect(out.shape == ((n, 2) if reps == 1 else (reps, n, 2)), "shape", got=out.shape)
    for rep in out.reshape(reps, n, 2):
        starts = np.r_[0, np.cumsum(split(n, k))[:-1]]
        centres = rep[starts]
        mon.expect(len(np.unique(centres, axis=0)) == k, "distinct centres", got=centres)
        if r is None:
            rr = np.full(k, pdist(centres).min() / 2)
        else:
            rr = np.broadcast_to(np.asarray(r, float), k)
        for i, (a, m) in enumerate(zip(starts, split(n, k))):
            d = np.hypot(*(rep[a : a + m] - centres[i]).T)
            mon.expect((d <= rr[i] * (1 + 1e-9) + 1e-12 * np.abs(b).max()).all(), "members within their cluster's radius", cluster=i, far=d.max(), radius=rr[i])
            if m > 1:
                mon.expect((d[1:] > 0).all(), "members apart from their centre", cluster=i)


@scenario(SCENARIOS, 24, 400)
def members_at_any_cost(mon, rng):
    """a hull that leaves little of the disc, or many members: none may lie outside"""
    s = 10.0 ** rng.uniform(-2, 3)
    thin = rng.random() < 0.5
    if thin:
        # next to nothing of a disc is inside: it takes many draws
        w = float(rng.choice([0.003, 0.01]))
        hull = shapely.transform(shapely.Polygon([(0, 0), (w, 0), (1 + w, 1), (1, 1)]), lambda x: x * s)
        n, k = int(rng.choice([3, 12, 60])), int(rng.integers(2, 4))
        r = s * float(rng.choice([0.3, 1.0]))
    else:
        hull = shapely.transform(shapely.Polygon([(0, 0), (1, 0), (1, 1), (0.5, 0.3), (0, 1)]), lambda x: x * s)
        k = int(rng.integers(2, 4))
        n = k * int(rng.choice([150, 700]))
        r = s * float(rng.choice([0.1, 0.5]))
    mon.feature("thin" if thin else "many members", f"n/k={n // k}")
    mon.fp(np.array([s, n, k, r]))
    out = np.asarray(mon.call(pr.cluster_poisson, hull, size=n, n_seeds=k, cluster_radius=r, rng=int(rng.integers(2**31))))
    mon.expect(out.shape == (n, 2), "shape", got=out.shape)
    # (draws are centred before they are judged: a rounding error at the border is none)
    far = shapely.distance(hull, shapely.points(out))
    mon.expect((far <= 1e-9 * s).all(), "within the hull", far=far.max(), outside=int((far > 0).sum()))
    a = 0
    for m in split(n, k):
        d = np.hypot(*(out[a : a + m] - out[a]).T)
        mon.expect((d <= r * (1 + 1e-9)).all(), "members within their cluster's radius", far=d.max(), radius=r)
        mon.expect(len(np.unique(out[a : a + m], axis=0)) == m, "distinct members")
        a += m


@scenario(SCENARIOS, 60, 1500)
def radius_is_used(mon, rng):
    """clusters clear of the border reach their radius, and fill the disc"""
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "multi"))
    k = int(rng.integers(2, 5))
    n = 60 * k
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    mode = int(rng.integers(0, 3))
    kw = {}
    if mode == 1:
        kw["cluster_radius"] = r = float(s * rng.choice([0.01, 0.03]))
    elif mode == 2:
        kw["cluster_radius"] = r = s * 10 ** rng.uniform(-3, -1.3, k)
    mon.feature(f"radius:{('default', 'number', 'array')[mode]}")
    out = np.asarray(mon.call(pr.cluster_poisson, hull, size=(n, 3), n_seeds=k, **kw, rng=int(rng.integers(2**31))))
    judged = 0
    for rep in out:
        centres = rep[::60]
        rr = np.broadcast_to(pdist(centres).min() / 2 if mode == 0 else r, k)
        for i in range(k):
            if to_edge(hull, centres[i]) <= rr[i]:
                continue
            judged += 1
            d = np.hypot(*(rep[60 * i + 1 : 60 * i + 60] - centres[i]).T) / rr[i]
            p = stats.kstest(d**2, "uniform").pvalue
            mon.expect(p > ALPHA, "members are spread over the disc of the cluster's radius", p=p, far=d.max())
    mon.feature("clusters judged" if judged else "no cluster clear of the border")
    if not judged:
        raise Skip


@scenario(SCENARIOS, 250, 6000)
def gaussian_clusters(mon, rng):
    """structure, for any hull"""
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "holed", "multi"))
    k = int(rng.integers(2, 6))
    n = int(k * rng.choice([1, 2, 4]) + rng.integers(0, k))
    reps = int(rng.integers(1, 4))
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    # so narrow that members are near their centre beyond doubt
    sd = 1e-6 * s
    v = sd**2 if rng.random() < 0.5 else np.eye(2) * sd**2
    out = np.asarray(mon.call(pr.cluster_normal, hull, cov=v, n_seeds=k, **size_args(rng, n, reps, area), rng=int(rng.integers(2**31))))
    mon.expect(out.shape == ((n, 2) if reps == 1 else (reps, n, 2)), "shape", got=out.shape)
    for rep in out.reshape(reps, n, 2):
        a = 0
        firsts = []
        for m in split(n, k):
            d = np.hypot(*(rep[a : a + m] - rep[a]).T)
            mon.expect((d < 10 * sd + 1e-12 * np.abs(b).max()).all(), "members around their centre", far=d.max(), sd=sd)
            firsts.append(rep[a])
            a += m
        mon.expect(len(np.unique(firsts, axis=0)) == k, "distinct centres", got=firsts)


@scenario(SCENARIOS, 80, 2000)
def gaussian_spread(mon, rng):
    """the spread follows the covariance given, or the replication's own by default"""
    w = 10.0 ** rng.integers(-2, 4) * (0.5 + rng.random(2))
    lo = rng.normal(size=2) * w
    hull = np.r_[lo, lo + w]
    k = int(rng.integers(2, 4))
    m = 40
    reps = 3
    mode = int(rng.integers(0, 3))
    kw = {}
    if mode == 1:
        kw["cov"] = c = float((w.max() * rng.choice([0.01, 0.1, 0.5])) ** 2)
        c = np.eye(2) * c
    elif mode == 2:
        c = np.diag((w * rng.choice([0.01, 0.1, 0.5], 2)) ** 2)
        kw["cov"] = c
    mon.feature(f"cov:{('default', 'number', 'matrix')[mode]}")
    out = np.asarray(mon.call(pr.cluster_normal, hull, size=(m * k, reps), n_seeds=k, **kw, rng=int(rng.integers(2**31))))
    u = []
    for rep in out:
        centres = rep[::m]
        if mode == 0:
            c = np.eye(2) * pdist(centres).mean() ** 2
        for i in range(k):
            for ax in range(2):
                sd = np.sqrt(c[ax, ax])
                a, b = (hull[ax] - centres[i][ax]) / sd, (hull[ax + 2] - centres[i][ax]) / sd
                x = (rep[m * i + 1 : m * (i + 1), ax] - centres[i][ax]) / sd
                # coordinates of axis-parallel normal members are truncated normal
                u.append(stats.truncnorm.cdf(x, a, b))
        one = stats.kstest(np.concatenate(u[-2 * k:]), "uniform").pvalue
        mon.expect(one > ALPHA, "spread of a replication", p=one, cov=c)
    p = stats.kstest(np.concatenate(u), "uniform").pvalue
    mon.expect(p > ALPHA, "spread over all", p=p)


@scenario(SCENARIOS, 12, 40)
def default_spread(mon, rng):
    """many members of three or more clusters: the mean distance is no other average"""
    w = np.array([1, rng.choice([0.02, 1.0])])[rng.permutation(2)] * 10.0 ** rng.uniform(-2, 4)
    lo = rng.normal(size=2) * w
    hull = np.r_[lo, lo + w]
    k, m = int(rng.integers(3, 5)), 1200
    rep = np.asarray(mon.call(pr.cluster_normal, hull, size=m * k, n_seeds=k, rng=int(rng.integers(2**31))))
    centres = rep[::m]
    sd = pdist(centres).mean()
    dev = var = 0.0
    for i in range(k):
        for ax in range(2):
            # second moments of the truncated normal law against those of the members
            a, b = (hull[ax] - centres[i][ax]) / sd, (hull[ax + 2] - centres[i][ax]) / sd
            z = (rep[m * i + 1 : m * (i + 1), ax] - centres[i][ax]) / sd
            x = np.linspace(a, b, 4001)
            f = stats.norm.pdf(x)
            f /= f.sum()
            m2, m4 = (f * x**2).sum(), (f * x**4).sum()
            dev += (z**2 - m2).sum()
            var += (m - 1) * (m4 - m2**2)
    mon.expect(abs(dev) < 7 * np.sqrt(var), "spread by default", deviation=dev / np.sqrt(var), sd=sd)


@scenario(SCENARIOS, 20, 400)
def correlated_spread(mon, rng):
    """a covariance with equal variances and a correlation, far from any border"""
    rho = float(rng.choice([-0.8, -0.4, 0.5, 0.9]))
    v = 10.0 ** rng.uniform(-3, 3)
    c = v * np.array([[1, rho], [rho, 1]])
    s = 200 * np.sqrt(v)
    hull = np.array([0, 0, s, s])
    out = np.asarray(mon.call(pr.cluster_normal, hull, cov=c, size=(400, 2), n_seeds=2, rng=int(rng.integers(2**31))))
    d = []
    for rep in out:
        for i in range(2):
            if to_edge(hull, rep[200 * i]) > 8 * np.sqrt(v):
                d.append(rep[200 * i + 1 : 200 * (i + 1)] - rep[200 * i])
    if not d:
        raise Skip
    d = np.concatenate(d) / np.sqrt(v)
    for u, want in (((1, 1), 1 + rho), ((1, -1), 1 - rho), ((1, 0), 1.0), ((0, 1), 1.0)):
        u = np.array(u) / np.hypot(*u)
        q = float(((d @ u) ** 2).sum() / want)
        n = len(d)
        mon.expect(stats.chi2.cdf(q, n) > ALPHA and stats.chi2.sf(q, n) > ALPHA, "spread along " + str(u.round(2)), got=q / n, rho=rho)


@scenario(SCENARIOS, 120, 2000)
def too_many_clusters(mon, rng):
    hull = np.array([0, 0, 10.0, 10.0])
    n = int(rng.integers(1, 9))
    k = n + int(rng.integers(1, 6))
    reps = int(rng.integers(1, 3))
    mon.refused(pr.cluster_poisson, hull, size=(n, reps), n_seeds=k, rng=1)
    mon.refused(pr.cluster_normal, hull, size=(n, reps), n_seeds=k, rng=1)
    mon.refused(pr.cluster_poisson, hull, size=(n, reps), n_seeds=k, cluster_radius=1.0, rng=1)
    if n > 1:
        out = mon.call(pr.cluster_poisson, hull, size=(n, reps), n_seeds=n, rng=1)
        mon.expect(np.asarray(out).size == n * reps * 2, "as many clusters as events", got=out)


@scenario(SCENARIOS, 28, 400)
def inhibition(mon, rng):
    """close pairs of several Strauss patterns against complete randomness"""
    s = 10.0 ** rng.integers(-1, 3)
    if rng.random() < 0.5:
        hull = np.array([0, 0, s, s])
        draw = lambda: rng.random((25, 2)) * s  # noqa: E731
    else:
        hull = shapely.Polygon([(0, 0), (s, 0), (s, s), (0.6 * s, s), (0.6 * s, 0.6 * s), (0, 0.6 * s)])

        def draw():
            p = rng.random((200, 2)) * s
            return p[shapely.contains_xy(hull, p)][:25]

    r = 0.12 * s
    gamma = float(rng.choice([0.05, 0.1, 1.0, 1.0]))
    reps = 6
    mon.feature(f"gamma={gamma}")
    out = np.asarray(mon.call(pr.strauss, hull, size=(25, reps), gamma=gamma, r=r, n_iter=600, rng=int(rng.integers(2**31))))
    got = sum((pdist(p) < r).sum() for p in out)
    ref = np.array([sum((pdist(draw()) < r).sum() for _ in range(reps)) for _ in range(150)])
    m, sd = ref.mean(), ref.std()
    if gamma == 1:
        mon.expect(abs(got - m) < 7.5 * sd, "no interaction: as many close pairs as by chance", got=got, mean=m, sd=sd)
    else:
        mon.expect(got < m - 3 * sd, "inhibition: fewer close pairs", got=got, mean=m, sd=sd)


def conditioned_strauss(rng, n, gamma, r, chains=240, sweeps=30):
    """close pairs of patterns of n events whose density is proportional to gamma^pairs"""
    p = rng.random((chains, n, 2))
    c = np.arange(chains)
    for _ in range(sweeps * n):
        i = rng.integers(0, n, chains)
        q = rng.random((chains, 2))
        old = np.hypot(*np.moveaxis(p - p[c, i][:, None], -1, 0)) < r
        new = np.hypot(*np.moveaxis(p - q[:, None], -1, 0)) < r
        old[c, i] = new[c, i] = False
        go = rng.random(chains) < gamma ** (new.sum(axis=1) - old.sum(axis=1)).astype(float)
        p[c[go], i[go]] = q[go]
    return np.array([(pdist(x) < r).sum() for x in p])


@scenario(SCENARIOS, 4, 48)
def strauss_law(mon, rng):
    """each close pair makes a pattern gamma times as likely"""
    n = 25
    gamma, r = ((0.1, 0.12), (0.3, 0.2), (0.5, 0.25), (0.8, 0.3))[int(rng.integers(4)) if mon.tier == "thorough" else mon.index % 4]
    s = 10.0 ** rng.uniform(-2, 4)
    lo = rng.normal(size=2) * s
    reps = 70
    mon.feature(f"gamma={gamma}")
    mon.fp(lo)
    out = np.asarray(mon.call(pr.strauss, np.r_[lo, lo + s], size=(n, reps), gamma=gamma, r=r * s, n_iter=1200, rng=int(rng.integers(2**31))))
    got = np.array([(pdist(p) < r * s).sum() for p in out])
    ref = conditioned_strauss(rng, n, gamma, r)
    sd = np.hypot(ref.std() / np.sqrt(reps), ref.std() / np.sqrt(len(ref)))
    mon.expect(abs(got.mean() - ref.mean()) < 6.5 * sd + 0.05 * ref.mean(), "as many close pairs as the process has", got=got.mean(), want=ref.mean(), sd=sd, gamma=gamma)
