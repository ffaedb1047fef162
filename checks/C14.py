"""Distribution of simulated locations: projections onto random directions, sub-areas,
discs, angles, serial and cross-replication dependence."""

import warnings

import numpy as np
import shapely
from scipy import stats
from shapely.affinity import rotate

import pointpats.random as pr
from checks.C11 import make_hull
from pointpats import PoissonClusterPointProcess, PoissonPointProcess, as_window, poly_from_bbox
from pv import gen
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["random.py", "process.py"]
ASSUMPTIONS = ["statistical decisions err with probability below 1e-10 each"]

ALPHA = 1e-10


def polygon_of(hull, kind):
    """the shape meant by any kind of hull"""
    if kind == "bbox":
        return shapely.box(*hull)
    if kind == "points":
        return shapely.box(*hull.min(axis=0), *hull.max(axis=0))
    if kind == "convex":
        return shapely.Polygon(hull.points[hull.vertices])
    return hull


class Uniform:
    """uniform distribution over a polygon"""

    def __init__(self, g):
        # in standard units, for the geometry library's sake
        b = np.array(g.bounds)
        self.c, self.s = (b[:2] + b[2:]) / 2, float((b[2:] - b[:2]).max())
        self.g = shapely.transform(g, lambda x: (x - self.c) / self.s)
        self.area = self.g.area

    def pit(self, p, angle):
        """probability of not exceeding the points, in a direction"""
        q = (np.asarray(p) - self.c) / self.s
        g = rotate(self.g, -angle, origin=(0, 0), use_radians=True)
        t = q @ np.array([np.cos(angle), np.sin(angle)])
        x0, y0, x1, y1 = g.bounds
        # the distribution function is piecewise quadratic between vertices: a fine
        # table of it is exact enough by far
        v = np.unique(np.r_[np.linspace(x0, x1, 129), shapely.get_coordinates(g)[:, 0]])
        f = shapely.area(shapely.intersection(g, shapely.box(x0 - 1, y0 - 1, v, y1 + 1))) / self.area
        return np.interp(t, v, f)


def uniform01(mon, u, what, **kw):
    p = stats.kstest(u, "uniform").pvalue
    mon.expect(p > ALPHA, what, p=p, n=len(u), **kw)


def independent(mon, u, v, what):
    """no dependence between paired uniform variates"""
    t = np.zeros((4, 4))
    np.add.at(t, ((np.clip(u, 0, 1 - 1e-12) * 4).astype(int), (np.clip(v, 0, 1 - 1e-12) * 4).astype(int)), 1)
    e = len(u) / 16
    p = stats.chi2.sf(((t - e) ** 2 / e).sum(), 15)
    mon.expect(p > ALPHA, what, p=p)


def serial(mon, per_rep, what):
    """per_rep: uniform variates per replication, in order of the draws"""
    a = np.concatenate([x[:-1] for x in per_rep])
    b = np.concatenate([x[1:] for x in per_rep])
    independent(mon, a, b, what + ": successive observations are independent")
    if len(per_rep) > 1:
        a, b = np.concatenate(per_rep[:-1]), np.concatenate(per_rep[1:])
        mon.expect((a != b).any(), what + ": replications differ")
        independent(mon, a, b, what + ": replications are independent")


def reaches(mon, u, what, **kw):
    """uniform variates come near both ends of their range"""
    u = np.clip(u, 0, 1)
    for side, gap in (("lower", u.min()), ("upper", 1 - u.max())):
        mon.expect(len(u) * np.log1p(-min(gap, 0.999)) > np.log(ALPHA), what + ": reaches the border", side=side, gap=gap, n=len(u), **kw)


def over_polygon(mon, rng, reps, g, what):
    """points (list of replications) uniform over g"""
    law = Uniform(g)
    pts = np.concatenate(reps)
    for a in (0.0, np.pi / 2, rng.uniform(0.1, 1.4), rng.uniform(1.7, 3.0)):
        u = law.pit(pts, a)
        uniform01(mon, u, what + ": uniform in direction", angle=a)
        reaches(mon, u, what, angle=a)
    # sub-areas: the hull split by a random cross
    c = pts[int(rng.integers(len(pts)))]
    b = np.array(g.bounds)
    quad = [shapely.box(b[0], b[1], c[0], c[1]), shapely.box(c[0], b[1], b[2], c[1]), shapely.box(b[0], c[1], c[0], b[3]), shapely.box(c[0], c[1], b[2], b[3])]
    frac = np.array([shapely.intersection(g, x).area for x in quad]) / g.area
    at = (pts[:, 0] > c[0]) + 2 * (pts[:, 1] > c[1])
    for k in range(4):
        n = int((at == k).sum())
        lo, hi = stats.binom.cdf(n, len(pts), frac[k]), stats.binom.sf(n - 2, len(pts), frac[k])
        mon.expect(min(lo, hi) > ALPHA, what + ": share of a sub-area", share=n / len(pts), want=frac[k])
    per = [law.pit(r, 0.0) for r in reps]
    serial(mon, per, what)


@scenario(SCENARIOS, 90, 2500)
def uniform(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "points", "polygon", "holed", "multi", "sliver") if rng.random() < 0.93 else ("convex",))
    n = 150 if kind == "convex" else int(rng.choice([250, 500, 900]))
    kw = dict(size=(n, 3))
    if rng.random() < 0.3:
        kw = dict(intensity=(n + 0.5) / area, size=3)
    out = mon.call(pr.poisson, hull, **kw, rng=int(rng.integers(2**31)))
    over_polygon(mon, rng, list(np.asarray(out)), polygon_of(hull, kind), "uniform")


@scenario(SCENARIOS, 6, 150)
def many_at_once(mon, rng):
    """so many that the whole of the hull, or of a cluster's disc, is reached"""
    n = 12000
    s = 10.0 ** rng.uniform(-2, 4)
    c = rng.normal(size=2) * s * rng.choice([0, 1, 30])
    how = int(rng.integers(0, 3)) if mon.tier == "thorough" else mon.index % 3
    mon.feature(f"many:{('box', 'polygon', 'disc')[how]}")
    if how < 2:
        hull = np.r_[c - s * (0.1 + rng.random(2)), c + s * (0.1 + rng.random(2))]
        g = shapely.box(*hull)
        if how:
            hull = g = gen.star_polygon(rng, 4, c, s)
        out = np.asarray(mon.call(pr.poisson, hull, size=n, rng=int(rng.integers(2**31))))
        over_polygon(mon, rng, [out], g, "many")
        return
    hull = np.r_[c - s, c + s]
    r = s * 10 ** rng.uniform(-4, -2, 2)
    out = np.asarray(mon.call(pr.cluster_poisson, hull, size=2 * n, n_seeds=2, cluster_radius=r, rng=int(rng.integers(2**31))))
    for i, p in enumerate((out[:n], out[n:])):
        q = (p[1:] - p[0]) / r[i]
        if not (np.abs(p[0] - c) < s - r[i]).all():
            continue
        for a in np.arange(8) * np.pi / 8:
            t = np.clip(q @ np.array([np.cos(a), np.sin(a)]), -1, 1)
            # the share of a disc on one side of a chord
            u = 0.5 + (t * np.sqrt(1 - t**2) + np.arcsin(t)) / np.pi
            uniform01(mon, u, "many members: uniform over the disc", angle=a)
            reaches(mon, u, "many members", angle=a)
        uniform01(mon, (q**2).sum(axis=1).clip(0, 1), "many members: uniform over the disc")
        serial(mon, [(q**2).sum(axis=1).clip(0, 1)], "many members")


@scenario(SCENARIOS, 24, 600)
def many_small_replications(mon, rng):
    """replications of few observations, successive calls of one generator"""
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "multi"))
    g = polygon_of(hull, kind)
    n = int(rng.choice([1, 2, 3]))
    if rng.random() < 0.5:
        out = np.asarray(mon.call(pr.poisson, hull, size=(n, 400), rng=int(rng.integers(2**31))))
    else:
        source = np.random.default_rng(int(rng.integers(2**31)))
        out = np.array([mon.call(pr.poisson, hull, size=(n, 1), rng=source) for _ in range(400)])
    mon.feature(f"n={n}")
    law = Uniform(g)
    for k in range(n):
        u = law.pit(out[:, k], rng.uniform(0, 3))
        uniform01(mon, u, "few observations: uniform each", k=k)
        independent(mon, u[:-1], u[1:], "few observations: replications are independent")
    if n > 1:
        independent(mon, law.pit(out[:, 0], 0.0), law.pit(out[:, 1], 0.0), "few observations: observations are independent")


@scenario(SCENARIOS, 60, 1500)
def cluster_members(mon, rng):
    """members uniform over the part of their disc within the hull; centres over the hull"""
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "holed", "multi"))
    g = polygon_of(hull, kind)
    k = 2
    m = 120 if rng.random() < 0.8 else 400
    b = np.array(g.bounds)
    s = float((b[2:] - b[:2]).max())
    r = s * rng.choice([0.05, 0.2, 0.4], k)
    if rng.random() < 0.3:
        r[:] = r[0]
    rr = float(r[0]) if (r == r[0]).all() else r
    out = np.asarray(mon.call(pr.cluster_poisson, hull, size=(m * k, 3), n_seeds=k, cluster_radius=rr, rng=int(rng.integers(2**31))))
    us, ends = [], [[], [], []]
    for rep in out:
        for i in range(k):
            c = rep[m * i]
            disc = shapely.Point(c).buffer(r[i], quad_segs=400)
            # (standard units around the centre keep the intersection precise)
            part = shapely.intersection(shapely.transform(g, lambda x: (x - c) / s), shapely.transform(disc, lambda x: (x - c) / s))
            law = Uniform(part)
            p = (rep[m * i + 1 : m * (i + 1)] - c) / s
            for a, e in zip((0.0, np.pi / 4, 2.3), ends):
                u = law.pit(p, a)
                e.append(u)
                uniform01(mon, u, "cluster: members uniform over their disc", angle=a, radius=r[i])
            us.append(law.pit(p, 0.5))
    uniform01(mon, np.concatenate(us), "cluster: members uniform over their discs, together")
    for e in ends:
        reaches(mon, np.concatenate(e), "cluster members")
    serial(mon, us, "cluster members")


@scenario(SCENARIOS, 40, 800)
def cluster_centres(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "polygon", "holed", "multi"))
    g = polygon_of(hull, kind)
    k = int(rng.integers(2, 4))
    b = np.array(g.bounds)
    s = float((b[2:] - b[:2]).max())
    if rng.random() < 0.5:
        out = mon.call(pr.cluster_poisson, hull, size=(2 * k, 200), n_seeds=k, cluster_radius=0.1 * s, rng=int(rng.integers(2**31)))
    else:
        out = mon.call(pr.cluster_normal, hull, size=(2 * k, 200), n_seeds=k, cov=(0.1 * s) ** 2, rng=int(rng.integers(2**31)))
    out = np.asarray(out)
    law = Uniform(g)
    per = [law.pit(rep[::2], 0.0) for rep in out]
    uniform01(mon, np.concatenate(per), "centres uniform over the hull")
    uniform01(mon, law.pit(out[:, ::2].reshape(-1, 2), 1.0), "centres uniform over the hull")
    mon.expect(len(np.unique(out[:, ::2].reshape(-1, 2), axis=0)) == out.shape[0] * k, "centres are not repeated", different=len(np.unique(out[:, ::2].reshape(-1, 2), axis=0)))
    a, b = np.array(per)[:, 0], np.array(per)[:, 1]
    independent(mon, a, b, "centres are independent")
    independent(mon, np.array(per)[:-1].ravel(), np.array(per)[1:].ravel(), "centres of successive replications are independent")
    # members of different clusters and replications differ in their offsets
    off = out[:, 1::2] - out[:, ::2]
    mon.expect(len(np.unique(off.reshape(-1, 2).round(12 - int(np.log10(s)) if s > 0 else 12), axis=0)) == off.shape[0] * k, "offsets of members are not repeated", got=off[:3])


def covariance(mon, rng, s, reps):
    """the argument, the matrices it means (per replication), correlated with unequal variances?"""
    k = int(rng.integers(0, 7))
    v = lambda: float((s * rng.choice([0.02, 0.15, 0.5])) ** 2)  # noqa: E731
    mon.feature(f"cov:{('default', 'float', 'int', 'diagonal', 'equal+rho', 'per replication', 'full')[k]}")
    if k == 0:
        return None, [np.eye(2) * (s / 2) ** 2] * reps, False
    if k <= 2:
        a = v()
        if k == 2 and a > 2:
            a = int(a)
        elif rng.random() < 0.3:
            a = np.float64(a)
        return a, [np.eye(2) * float(a)] * reps, False
    if k == 3:
        c = np.diag([v(), v()])
        return c, [c] * reps, False
    if k == 4:
        rho = rng.choice([-0.9, -0.5, 0.3, 0.8])
        c = v() * np.array([[1, rho], [rho, 1]])
        return c, [c] * reps, False
    if k == 5:
        if rng.random() < 0.5:
            c = np.array([np.diag([v(), v()]) for _ in range(reps)])
        else:
            c = np.array([v() * np.array([[1, q], [q, 1]]) for q in rng.uniform(-0.9, 0.9, reps)])
        return c, list(c), False
    a, b = v(), v() * 1.7
    rho = rng.choice([-0.8, 0.6])
    o = rho * np.sqrt(a * b)
    c = np.array([[a, o], [o, b]])
    return c, [c] * reps, True


def truncated(rng, g, center, draw, n):
    """reference draws within the hull"""
    got = []
    m = 0
    for _ in range(400):
        p = center + draw(4 * n)
        p = p[shapely.intersects_xy(g, p)]
        got.append(p)
        m += len(p)
        if m >= n:
            return np.concatenate(got)[:n]
    raise Skip


def same_law(mon, got, ref):
    """smallest p-value of two-sample comparisons along several directions"""
    ps = []
    for a in np.arange(4) * np.pi / 4:
        d = np.array([np.cos(a), np.sin(a)])
        ps.append(stats.ks_2samp(got @ d, ref @ d).pvalue)
    return min(ps)


@scenario(SCENARIOS, 130, 3000)
def gaussian(mon, rng):
    hull, area, ok, kind = make_hull(mon, rng, ("bbox", "points", "polygon", "holed", "multi") if rng.random() < 0.95 else ("convex",))
    g = polygon_of(hull, kind)
    b = np.array(g.bounds)
    s = float((b[2:] - b[:2]).max())
    if area / s**2 < 0.15:
        raise Skip
    n = 120 if kind == "convex" else 300
    reps = 2
    cov, mats, mixed = covariance(mon, rng, s, reps)
    kw = {} if cov is None else dict(cov=cov)
    how = int(rng.integers(0, 3))
    if how == 0:
        if kind in ("bbox", "points"):
            center = (b[:2] + b[2:]) / 2
        elif kind == "convex":
            # documented: treated as an array of its vertices
            center = hull.points[hull.vertices].mean(axis=0)
        else:
            center = shapely.get_coordinates(shapely.centroid(g))[0]
        if not g.contains(shapely.Point(center)) and cov is not None:
            # hardly anything of a narrow distribution within the hull
            raise Skip
    else:
        # a wide distribution may be centred outside of the hull
        away = not mixed and rng.random() < 0.4 and all(np.diag(c).min() > (0.25 * s) ** 2 for c in mats)
        while True:
            center = rng.uniform(b[:2] - 0.3 * s * away, b[2:] + 0.3 * s * away)
            if g.contains(shapely.Point(center)) != away:
                break
        mon.feature("center outside" if away else "center inside")
        kw["center"] = center if how == 1 else tuple(center.tolist())
    mon.feature(f"center:{('default', 'array', 'tuple')[how]}")
    out = np.asarray(mon.call(pr.normal, hull, **kw, size=(n, reps), rng=int(rng.integers(2**31))))
    for rep, c in zip(out, mats):
        ref = truncated(rng, g, center, lambda m: rng.multivariate_normal((0, 0), c / s**2, m) * s, 3000)
        p = same_law(mon, (rep - center) / s, (ref - center) / s)
        if p > ALPHA or not mixed:
            mon.expect(p > ALPHA, "normal: centre and covariance", p=p, center=center, cov=c, mean=rep.mean(axis=0), got=np.cov(rep.T))
        else:
            # the listed finding: correlation scaled by one standard deviation only
            sd = np.sqrt(np.diag(c))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ref = truncated(rng, g, center, lambda m: rng.multivariate_normal((0, 0), c / sd**2, m) * sd, 3000)
            q = same_law(mon, (rep - center) / s, (ref - center) / s)
            mon.expect(q > ALPHA, "normal: centre and covariance", p=p, center=center, cov=c)
            mon.known("normal-correlated-unequal", "normal: covariance with unequal variances and a correlation", p=p, cov=c, got=np.cov(rep.T))
    if cov is not None and not mixed and kind == "bbox" and all(c[0, 1] == 0 for c in mats):
        us = []
        for rep, c in zip(out, mats):
            x = (rep[:, 0] - center[0]) / np.sqrt(c[0, 0])
            lim = (np.array([b[0], b[2]]) - center[0]) / np.sqrt(c[0, 0])
            us.append(stats.truncnorm.cdf(x, *lim))
        serial(mon, us, "normal")
    else:
        mon.expect((out[0] != out[1]).any(), "normal: replications differ")


@scenario(SCENARIOS, 40, 900)
def gaussian_exact(mon, rng):
    """in boxes, coordinates of uncorrelated normals are truncated normal; pooled for power"""
    hull, area, ok, kind = make_hull(mon, rng, ("bbox",))
    w = hull[2:] - hull[:2]
    reps = int(rng.choice([3, 3, 5]))
    n = gen.now_and_then(rng, mon, 500, 4000, 0.05)
    k = int(rng.integers(0, 4))
    s = float(w.max())
    if k == 0:
        cov, mats = None, [np.eye(2) * (s / 2) ** 2] * reps
    elif k == 1:
        cov = float((s * rng.choice([0.05, 0.2])) ** 2)
        mats = [np.eye(2) * cov] * reps
    elif k == 2:
        cov = np.diag((w * rng.choice([0.05, 0.2, 0.6], 2)) ** 2)
        mats = [cov] * reps
    else:
        cov = np.array([np.diag((w * rng.choice([0.05, 0.2, 0.6], 2)) ** 2) for _ in range(reps)])
        mats = list(cov)
    mon.feature(f"cov:{('default', 'float', 'diagonal', 'per replication')[k]}")
    kw = {} if cov is None else dict(cov=cov)
    center = (hull[:2] + hull[2:]) / 2
    if rng.random() < 0.6:
        center = hull[:2] + w * rng.uniform(0.1, 0.9, 2)
        if rng.random() < 0.4 and all((np.diag(c) > (0.4 * w) ** 2).all() for c in mats):
            mon.feature("center outside")
            center = hull[:2] + w * np.array([rng.choice([-0.4, 1.3]), rng.uniform(-0.2, 1.2)])[:: rng.choice([-1, 1])]
        kw["center"] = center
    out = np.asarray(mon.call(pr.normal, hull, **kw, size=(n, reps), rng=int(rng.integers(2**31))))
    us = [[], []]
    for rep, c in zip(out, mats):
        for ax in range(2):
            sd = np.sqrt(c[ax, ax])
            lim = (np.array([hull[ax], hull[ax + 2]]) - center[ax]) / sd
            us[ax].append(stats.truncnorm.cdf((rep[:, ax] - center[ax]) / sd, *lim))
            uniform01(mon, us[ax][-1], "normal in a box: truncated normal coordinates", axis=ax, sd=sd)
    for ax in range(2):
        uniform01(mon, np.concatenate(us[ax]), "normal in a box: truncated normal coordinates, pooled")
        serial(mon, us[ax], "normal in a box")
    independent(mon, np.concatenate(us[0]), np.concatenate(us[1]), "normal in a box: uncorrelated coordinates are independent")


@scenario(SCENARIOS, 40, 900)
def legacy(mon, rng):
    w, g = gen.window(mon, rng)
    over = bool(rng.random() < 0.5)
    p = mon.call(PoissonPointProcess, w, 300, 4, conditioning=over, asPP=bool(rng.random() < 0.3))
    reps = [np.asarray(getattr(x, "points", x), float)[:, :2] for x in (p.realizations[i] for i in range(4))]
    m = min(map(len, reps))
    over_polygon(mon, rng, [x[:m] for x in reps], g, "legacy")


@scenario(SCENARIOS, 30, 600)
def legacy_clusters(mon, rng):
    """discs around the parents, in a window that is wide enough"""
    r = 10.0 ** rng.integers(-2, 2)
    w = as_window(poly_from_bbox([0, 0, 1000 * r, 1000 * r]))
    k, m = 5, 60
    keep = bool(rng.random() < 0.5)
    p = mon.call(PoissonClusterPointProcess, w, k * m, k, r, 2, keep=keep, asPP=False)
    us = []
    for i in range(2):
        x = np.asarray(p.realizations[i], float)
        # clusters are small and far apart: complete linkage by a coarse grid
        label = np.full(len(x), -1)
        for a in range(len(x)):
            if label[a] < 0:
                label[(np.hypot(*(x - x[a]).T) <= 2 * r * (1 + 1e-9)) & (label < 0)] = a
        for a in np.unique(label):
            q = x[label == a]
            if len(q) < 20:
                continue
            # the centre is unknown: uniform spread has variance r²/4 per axis
            v = q.var(axis=0, ddof=1)
            us.append(v / (r * r / 4))
    us = np.array(us)
    if len(us) < 4:
        raise Skip
    # (kurtosis of a coordinate of a uniform disc is 2, so var of s² ≈ σ⁴/n)
    z = (us.mean() - 1) / (1 / np.sqrt(m * us.size))
    mon.expect(abs(z) < 8, "legacy clusters: spread of a uniform disc", ratio=us.mean(), z=z)
