"""Eigen-decomposition of the weighted covariance as the reference."""

import numpy as np
import shapely

from pointpats import centrography as cg
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["centrography.py"]


def reference(p, w, method, cs, df):
    n = len(p)
    w = np.ones(n) if w is None else np.asarray(w, float)
    c = (p * w[:, None]).sum(axis=0) / w.sum()
    d = p - c
    cov = (d * w[:, None]).T @ d / w.sum()
    ev, vec = np.linalg.eigh(cov)
    f = 1.0
    if method == "crimestat" or cs:
        f *= np.sqrt(2)
    if method == "crimestat" or df:
        f *= np.sqrt(n / (n - 2))
    ev = np.sqrt(np.maximum(ev, 0)) * f
    v = vec[:, 1]
    return ev[1], ev[0], np.arctan2(v[1], v[0]), c


def angle_gap(a, b):
    d = (a - b) % np.pi
    return min(d, np.pi - d)


def make(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([3, 4, 5, 8, 12, 30, 80]), 2400)
    k = int(rng.integers(0, 4))
    if k == 0:
        p = gen.points(rng, n, mon=mon)
    else:
        ratio = float(rng.choice([0.05, 0.3, 0.7, 0.95]))
        a = float(rng.random() * np.pi) if k == 1 else float(rng.choice([0, np.pi / 2, np.pi / 4, 3 * np.pi / 4, 1e-3, np.pi - 1e-3, np.pi / 2 + 1e-3]))
        p = rng.normal(size=(n, 2))
        if mon.index % 12 == 5 and gen.noncollinear(p, 1e-2):
            # very nearly circular
            mon.feature("near circular")
            p = p - p.mean(axis=0)
            p = p @ np.linalg.inv(np.linalg.cholesky(p.T @ p / n)).T
            ratio = 1 - 10.0 ** -rng.uniform(2.5, 4)
        p = p * [1, ratio]
        p = p @ np.array([[np.cos(a), np.sin(a)], [-np.sin(a), np.cos(a)]])
        p = p * 10.0 ** rng.integers(-2, 4) + rng.choice([0, -50, 1000, 5e5]) * np.array([1, 0.4])
        mon.feature("oriented")
        if k == 3:
            # symmetric about the axes: exactly uncorrelated
            h = np.abs(rng.normal(size=(max(1, n // 4), 2))) * [1, ratio]
            if mon.index % 8 == 3:
                mon.feature("near circular")
                h = h / np.sqrt((h * h).mean(axis=0)) * [1, 1 - 10.0 ** -rng.uniform(2.5, 4)]
            if rng.random() < 0.5:
                h = h[:, ::-1]
            p = np.r_[h, h * [-1, 1], h * [1, -1], -h] + (rng.integers(-5, 6, 2) if rng.random() < 0.5 else 0)
            p = p * 2.0 ** rng.choice([0, 0, 8, -12, -28])
            mon.feature("axis-aligned")
    if not gen.noncollinear(p, 1e-4):
        p = rng.normal(size=(n, 2))
    n = len(p)
    if rng.random() < 0.15 and gen.noncollinear(np.round(p), 1e-3):
        p = np.round(p).astype(int)
        mon.feature("dtype:int")
    w = None
    if rng.random() < 0.6:
        w = rng.random(n) * 5 + 0.05
        if rng.random() < 0.4:
            w = rng.integers(1, 10, n)
        elif rng.random() < 0.4:
            # shares of the whole, or one on average
            mon.feature("normalised weights")
            w = w / w.sum() * (1 if rng.random() < 0.5 else n)
            if rng.random() < 0.5:
                w = np.where(np.arange(n) < n // 2 * 2, np.tile([0.5, 1.5], n)[:n], 1.0)
        if rng.random() < 0.3:
            w = w.tolist()
        mon.feature("weighted")
        if n > 5 and rng.random() < 0.35:
            # events may not count at all, as long as the others span the plane
            z = np.array(w)
            z[rng.choice(n, int(rng.integers(1, n - 3)), replace=False)] = 0
            if gen.noncollinear(p[z > 0].astype(float), 1e-3):
                w = z.tolist() if isinstance(w, list) else z
                mon.feature("zero weights")
    method = ("crimestat", "yuill")[int(rng.integers(2))]
    written = (method, method.upper(), method.title())[int(rng.integers(3))]
    cs, df = bool(rng.integers(2)), bool(rng.integers(2))
    kw = dict(weights=w, method=written, crimestatCorr=cs, degfreedCorr=df)
    if rng.random() < 0.5:
        # settings that are left out: crimestat, both corrections, weights of one
        for k in ("weights", "method", "crimestatCorr", "degfreedCorr"):
            if rng.random() < 0.5:
                mon.feature("default " + k)
                del kw[k]
        w, method = kw.get("weights"), kw.get("method", "crimestat").lower()
        cs, df = kw.get("crimestatCorr", True), kw.get("degfreedCorr", True)
    mon.feature(f"{method} cs={cs} df={df}")
    return p, w, method, cs, df, kw


@scenario(SCENARIOS, 4000, 30000)
def axes(mon, rng):
    p, w, method, cs, df, kw = make(mon, rng)
    f = p.astype(float)
    x = p.tolist() if rng.random() < 0.2 else gen.array_layout(rng, p)[0]
    a, b, t, _ = reference(f, w, method, cs, df)
    got = mon.call(cg.ellipse, x, **kw)
    mon.expect(len(got) == 3, "three values", got=got)
    major, minor, theta = map(float, got)
    tol = 1e-8 + 1e-13 * gen.mag(f) / a
    mon.close(major, a, "major axis", rtol=tol * 10)
    mon.close(minor, b, "minor axis", rtol=1e-6, atol=tol * a * 10)
    mon.expect(major >= minor, "larger axis first", got=got)
    if a > b * (1 + 1e-4):
        # error of the direction grows with the inverse of the axes' difference
        lim = (1e-9 + 1e-14 * gen.mag(f) / a) / (1 - (b / a) ** 2) * 1e2 + 1e-7
        gap = angle_gap(theta, t)
        mon.expect(gap <= lim, "direction of the major axis", got=theta, want=t, gap=gap)


@scenario(SCENARIOS, 700, 6000)
def geospatial(mon, rng):
    p, w, method, cs, df, kw = make(mon, rng)
    f = p.astype(float)
    a, b, t, c = reference(f, w, method, cs, df)
    x = gen.geoseries(rng, f) if rng.random() < 0.5 else gen.geoframe(rng, f)
    got = mon.call(cg.ellipse, x, **kw)
    mon.expect(isinstance(got, shapely.Polygon) and got.is_valid, "a polygon", got=got)
    v = shapely.get_coordinates(got)
    d = v - c
    # polygon vertices on the ellipse
    u = np.array([np.cos(t), np.sin(t)])
    o = np.array([-u[1], u[0]])
    if a > b * 1.001 or True:
        q = ((d @ u) / a) ** 2 + ((d @ o) / b) ** 2
    lim = 1e-6 + 1e-12 * gen.mag(f) / b
    if a <= b * (1 + 1e-3):
        lim += 4e-3
    else:
        lim += 1e-7 / (1 - (b / a) ** 2) * (a / b)
    mon.expect(len(v) >= 17 and np.abs(q - 1).max() <= lim, "outline on the ellipse", worst=np.abs(q - 1).max(), lim=lim, a=a, b=b, t=t)
    mon.close(got.area, np.pi * a * b, "area of the ellipse", rtol=2e-2)
    mon.close(shapely.get_coordinates(got.centroid)[0], c, "centred on the (weighted) mean centre", rtol=1e-9, atol=1e-6 * a + 1e-11 * gen.mag(f))
