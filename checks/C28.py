"""Event sets over bandwidths, engines, kernels, resolutions, levels, filling and margins,
arrays and geospatial input incl. MultiPoint; every drawn vertex lies on an edge of the
independently computed grid and interpolates the exact density sum to its level, and
every edge that a level crosses has a vertex."""

import geopandas as gpd
import matplotlib.pyplot as plt
import numpy as np
import shapely
from matplotlib.figure import Figure
from pointpats import plot_density

from pv import gen
from pv.core import Skip, scenario

FILES = ["kde.py"]
ASSUMPTIONS = [
    "the transform based engine is judged to 2 % of the highest density, as it bins the events",
    "the extent of its grid is that of the installed KDEpy",
]
SCENARIOS = []
plt.rcParams["figure.max_open_warning"] = 0


def gaussian(p, q, h, weights=None):
    w = np.full(len(p), 1 / len(p)) if weights is None else weights
    d2 = ((q[:, None, :] - p[None, :, :]) ** 2).sum(axis=2)
    return (np.exp(-d2 / (2 * h * h)) * w).sum(axis=1) / (2 * np.pi * h * h)


def events(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([3, 6, 15, 40]), 3000, 0.03)
    p = gen.points(rng, n, kinds=("uniform", "normal", "clusters", "duplicates", "elongated", "lattice"), mon=mon)
    ext = np.ptp(p, axis=0)
    if ext.min() <= 0.02 * ext.max() or gen.mag(p) > 1e5 * ext.min():
        raise Skip
    return p


def given(mon, rng, p):
    k = int(rng.integers(0, 6))
    mon.feature(f"form:{k}")
    crs = "EPSG:3857" if rng.random() < 0.5 else None
    if np.abs(p[:, 0]).max() <= 180 and np.abs(p[:, 1]).max() <= 90 and rng.random() < 0.4:
        mon.feature("degrees")
        crs = "EPSG:4326"
    if k == 0:
        return gen.geoseries(rng, p, crs)
    if k == 1:
        return gen.geoframe(rng, p, crs)
    if k == 2:
        return gen.multipoints(rng, p)
    if k == 5:
        return gpd.GeoSeries(gpd.points_from_xy(p[:, 0], p[:, 1], rng.random(len(p)) * 1e3), crs=crs)
    if k == 3:
        return gen.array_layout(rng, p)[0]
    return p


def crossings(xs, ys, z, level):
    """the points where a level crosses the edges of the grid"""
    out = []
    a = z > level
    i, j = np.nonzero(a[:, 1:] != a[:, :-1])
    t = (level - z[i, j]) / (z[i, j + 1] - z[i, j])
    out.append(np.c_[xs[j] + t * (xs[j + 1] - xs[j]), ys[i]])
    i, j = np.nonzero(a[1:] != a[:-1])
    t = (level - z[i, j]) / (z[i + 1, j] - z[i, j])
    out.append(np.c_[xs[j], ys[i] + t * (ys[i + 1] - ys[i])])
    return np.vstack(out)


def interpolate(xs, ys, z, v):
    """the density along the edge of the grid that a vertex lies on; nan if on none"""
    fx = np.interp(v[:, 0], xs, np.arange(len(xs)))
    fy = np.interp(v[:, 1], ys, np.arange(len(ys)))
    onx = np.abs(fx - fx.round()) < 1e-6
    ony = np.abs(fy - fy.round()) < 1e-6
    fx, fy = np.where(onx, fx.round(), fx), np.where(ony, fy.round(), fy)
    j, i = np.minimum(fx.astype(int), len(xs) - 2), np.minimum(fy.astype(int), len(ys) - 2)
    a, b = fx - j, fy - i
    val = (1 - a) * (1 - b) * z[i, j] + a * (1 - b) * z[i, j + 1] + (1 - a) * b * z[i + 1, j] + a * b * z[i + 1, j + 1]
    return np.where(onx | ony, val, np.nan)


def judge(mon, cs, xs, ys, z, levels, fill, tol, exact):
    top = z.max()
    if np.ndim(levels):
        mon.close(cs.levels, levels, "requested levels", rtol=1e-12)
    elif exact:
        ref = Figure().add_subplot()
        ref = (ref.contourf if fill else ref.contour)(xs, ys, z, levels=levels) if levels is not None else (ref.contourf if fill else ref.contour)(xs, ys, z)
        mon.expect(len(ref.levels) == len(cs.levels) and np.allclose(ref.levels, cs.levels, rtol=1e-9, atol=1e-12 * top), "number and positions of levels", got=cs.levels, want=ref.levels)
    mon.expect(cs.filled == fill, "filled as requested", got=cs.filled)
    lv = np.asarray(cs.levels)
    paths = cs.get_paths()
    mon.expect(len(paths) == len(lv) - int(fill), "one path per level or band", got=len(paths), want=len(lv) - int(fill))
    total = 0
    for k, path in enumerate(paths):
        v = path.vertices
        if len(v) == 0:
            if exact and not fill and z.min() < lv[k] < z.max():
                c = crossings(xs, ys, z, lv[k])
                mon.expect(len(c) == 0, "every level inside of the density is drawn", level=lv[k], crossings=len(c))
            continue
        total += len(v)
        slack = 1e-6 * np.array([np.ptp(xs), np.ptp(ys)])
        mon.expect((v >= [xs[0], ys[0]] - slack).all() and (v <= [xs[-1], ys[-1]] + slack).all(), "contours within the grid", got=(v.min(0), v.max(0)), want=(xs[0], ys[0], xs[-1], ys[-1]))
        if not exact:
            val = interpolate(xs, ys, z, v)
        else:
            val = interpolate(xs, ys, z, v)
        mon.expect(not np.isnan(val).any(), "vertices lie on the grid of the requested resolution", at=v[np.isnan(val)][:3])
        if not fill:
            bad = np.abs(val - lv[k]) > tol * top
            mon.expect(not bad.any(), "density along a contour is its level", level=lv[k], got=val[bad][:5], at=v[bad][:5])
        else:
            low, high = lv[k], lv[k + 1]
            border = (np.abs(v[:, 0] - xs[0]) <= slack[0]) | (np.abs(v[:, 0] - xs[-1]) <= slack[0]) | (np.abs(v[:, 1] - ys[0]) <= slack[1]) | (np.abs(v[:, 1] - ys[-1]) <= slack[1])
            off = np.minimum(np.abs(val - low), np.abs(val - high)) > tol * top
            off &= ~(border & (val >= low - tol * top) & (val <= high + tol * top))
            mon.expect(not off.any(), "density along the rim of a band is one of its levels", levels=(low, high), got=val[off][:5])
        if exact and not fill and np.abs(z - lv[k]).min() > 1e-6 * top:
            c = crossings(xs, ys, z, lv[k])
            d = np.array([np.abs((v - q) / [np.ptp(xs), np.ptp(ys)]).max(axis=1).min() for q in c]) if len(c) else np.zeros(0)
            mon.expect((d < 1e-6).all(), "every crossing of a level is drawn", level=lv[k], missing=int((d >= 1e-6).sum()))
    if fill and exact:
        # nodes are in the band of their density
        for k, path in enumerate(paths):
            if len(path.vertices) == 0:
                continue
            rings = [r for r in path.to_polygons() if len(r) >= 4]
            if not rings:
                continue
            g = shapely.Polygon()
            for r in rings:
                g = shapely.symmetric_difference(g, shapely.make_valid(shapely.Polygon(r)))
            w = 1e-3 * (lv[k + 1] - lv[k])
            i, j = np.nonzero((z > lv[k] + w) & (z < lv[k + 1] - w))
            q = shapely.points(xs[j], ys[i])
            mon.expect((shapely.distance(g, q) <= 1e-6 * max(np.ptp(xs), np.ptp(ys))).all(), "bands cover the densities between their levels", band=k)
    mon.feature("drawn" if total else "nothing drawn")


def options(mon, rng, exact):
    o, lv = {}, 10
    if rng.random() < 0.35:
        lv = int(rng.choice([1, 3, 5, 15]))
        o["levels"] = lv
    fill = bool(rng.random() < 0.35)
    if fill or rng.random() < 0.3:
        o["fill"] = fill
    style = {}
    if rng.random() < 0.3:
        style["cmap"] = str(rng.choice(["viridis", "Reds"]))
    if rng.random() < 0.3:
        style["alpha"] = 0.4
    if not fill and rng.random() < 0.3:
        style["linewidths"] = 2.5
    return o, lv, fill, style


def axes(mon, rng):
    k = int(rng.integers(0, 3))
    mon.feature(f"axes:{k}")
    if k == 0:
        fig, ax = plt.subplots(figsize=(3, 3))
        other = plt.figure()
        return dict(ax=ax, figsize=(9, 9)) if rng.random() < 0.3 else dict(ax=ax), ax
    plt.figure()
    if k == 1:
        return dict(figsize=(5, 4)), None
    return {}, None


def target(mon, rng, call, o, style):
    """draws, and returns the contour set on the axes asked for"""
    a, ax = axes(mon, rng)
    before = set(plt.get_fignums())
    ret = bool(rng.random() < 0.7)
    if ret:
        o = dict(o, return_contourset=True)
    out = call(**o, **a, **style)
    if ret:
        mon.expect(isinstance(out, tuple) and len(out) == 2, "axes and contour set on request", got=type(out))
        got, cs = out
    else:
        mon.expect(not isinstance(out, tuple), "the axes are returned", got=type(out))
        got = out
        mon.expect(len(got.collections) == 1, "one contour set is drawn", got=len(got.collections))
        cs = got.collections[0]
    new = set(plt.get_fignums()) - before
    if ax is not None:
        mon.expect(got is ax and not new, "the given axes are used", new=new)
    else:
        mon.expect(len(new) == 1 and got.figure.number in new, "new axes", new=new)
        if "figsize" in a:
            mon.close(got.figure.get_size_inches(), a["figsize"], "size of a new figure")
    mon.expect(cs.axes is got and cs in got.collections, "contours are on the axes")
    mon.expect(got.get_aspect() == 1.0, "equal aspect", got=got.get_aspect())
    if "cmap" in style:
        mon.expect(cs.get_cmap().name == style["cmap"], "styling reaches the plot: cmap", got=cs.get_cmap().name)
    if "alpha" in style:
        mon.expect(cs.get_alpha() == 0.4, "styling reaches the plot: alpha")
    if "linewidths" in style:
        mon.expect(set(np.ravel(cs.get_linewidth())) == {2.5}, "styling reaches the plot: linewidths", got=cs.get_linewidth())
    return cs


@scenario(SCENARIOS, 130, 4000)
def default_engine(mon, rng):
    p = events(mon, rng)
    h = float(gen.spread(p) * rng.choice([0.05, 0.1, 0.3]))
    o, lv, fill, style = options(mon, rng, True)
    k = int(rng.integers(0, 4))
    if k == 0:
        nx, ny = int(rng.integers(5, 30)), int(rng.integers(5, 30))
        o["resolution"] = (nx, ny)
    elif k == 1 and len(p) < 10 and rng.random() < 0.15:
        nx = ny = 100
        if rng.random() < 0.5:
            o["resolution"] = None
    else:
        nx = ny = int(rng.integers(5, 30))
        if mon.index % 20 == 9 and len(p) < 40:
            mon.feature("fine grid")
            nx = ny = int(rng.integers(180, 320))
        o["resolution"] = nx
    m = 0.1
    if rng.random() < 0.6:
        m = float(rng.choice([0, 0.05, 0.5, 1]))
        o["margin"] = m
    lo, hi = p.min(axis=0), p.max(axis=0)
    e = (hi - lo) * m
    xs, ys = np.linspace(lo[0] - e[0], hi[0] + e[0], nx), np.linspace(lo[1] - e[1], hi[1] + e[1], ny)
    gx, gy = np.meshgrid(xs, ys)
    z = gaussian(p, np.c_[gx.ravel(), gy.ravel()], h).reshape(ny, nx)
    if z.max() <= 0 or np.ptp(z) < 1e-6 * z.max():
        raise Skip
    if rng.random() < 0.3:
        lv = np.sort(rng.uniform(z.min(), z.max(), int(rng.choice([2, 3, 4, 5, 9, 16]))))
        if np.diff(lv).min() < 1e-6 * z.max():
            raise Skip
        o["levels"] = lv if rng.random() < 0.5 else lv.tolist()
    mon.feature(f"fill:{fill}", f"resolution:{k}")
    cs = target(mon, rng, lambda **kw: mon.call(plot_density, given(mon, rng, p), h, **kw), o, style)
    judge(mon, cs, xs, ys, z, lv, fill, 1e-7, True)


def binned(p, xs, ys):
    """the events' weights shared out to the surrounding nodes"""
    w = np.zeros((len(ys), len(xs)))
    fx = (p[:, 0] - xs[0]) / (xs[1] - xs[0])
    fy = (p[:, 1] - ys[0]) / (ys[1] - ys[0])
    j, i = np.floor(fx).astype(int), np.floor(fy).astype(int)
    a, b = fx - j, fy - i
    for di, dj, v in ((0, 0, (1 - a) * (1 - b)), (0, 1, a * (1 - b)), (1, 0, (1 - a) * b), (1, 1, a * b)):
        np.add.at(w, (np.minimum(i + di, len(ys) - 1), np.minimum(j + dj, len(xs) - 1)), v)
    return w / len(p)


@scenario(SCENARIOS, 110, 3500)
def transform_engine(mon, rng):
    from KDEpy import FFTKDE, NaiveKDE

    p = events(mon, rng)
    kernel = str(rng.choice(["gaussian", "gaussian", "epa", "biweight", "triweight", "tri"]))
    if kernel == "gaussian":
        # (KDEpy cuts its infinite support at an absolute density)
        p = (p - p.mean(axis=0)) / gen.spread(p) * float(rng.choice([0.3, 1, 3])) + rng.integers(-50, 50, 2)
    h = float(gen.spread(p) * rng.choice([0.05, 0.1, 0.3]))
    o, lv, fill, style = options(mon, rng, False)
    o["kernel"] = kernel
    k = int(rng.integers(0, 3))
    if k == 0:
        res = (int(rng.integers(10, 40)), int(rng.integers(10, 40)))
        o["resolution"] = res
    elif k == 1 and rng.random() < 0.2:
        res = 100
    else:
        res = int(rng.integers(10, 40))
        o["resolution"] = res
    if rng.random() < 0.2:
        o["margin"] = 3.0  # of no effect here
    mon.feature("kernel:" + kernel, f"fill:{fill}", f"resolution:{k}")
    try:
        grid, _ = FFTKDE(bw=h, kernel=kernel).fit(p.copy()).evaluate(res)
    except (AssertionError, ValueError):
        raise Skip from None  # beyond what KDEpy itself can do
    xs, ys = np.unique(grid[:, 0]), np.unique(grid[:, 1])
    nx, ny = res if isinstance(res, tuple) else (res, res)
    if (len(xs), len(ys)) != (nx, ny):
        raise Skip
    gx, gy = np.meshgrid(xs, ys)
    q = np.c_[gx.ravel(), gy.ravel()]
    w = binned(p, xs, ys)
    if kernel == "gaussian":
        i = np.flatnonzero(w.ravel() > 0)
        z = gaussian(q[i], q, h, w.ravel()[i]).reshape(ny, nx)
    else:
        i = np.flatnonzero(w.ravel() > 1e-15)
        z = NaiveKDE(bw=h, kernel=kernel).fit(q[i], weights=w.ravel()[i]).evaluate(q).reshape(ny, nx)
    if z.max() <= 0 or np.ptp(z) < 1e-6 * z.max():
        raise Skip
    if rng.random() < 0.3:
        lv = np.sort(rng.uniform(0.05, 0.95, int(rng.integers(2, 6)))) * z.max()
        if np.diff(lv).min() < 1e-6 * z.max():
            raise Skip
        o["levels"] = lv
    cs = target(mon, rng, lambda **kw: mon.call(plot_density, given(mon, rng, p), h, **kw), o, style)
    judge(mon, cs, xs, ys, z, lv, fill, 2e-2, False)
    if not np.ndim(lv):
        used = [k for k, path in enumerate(cs.get_paths()) if len(path.vertices)]
        mon.expect(len(used) > 0, "levels inside of the density are drawn", levels=cs.levels, top=z.max())
