"""Random patterns with windows, holes and hulls, both kinds of quadrat grids and
space-time event sets under colours, critical values and inference kinds; the artists
on the axes and the features of the interactive maps are read back and compared."""

import geopandas as gpd
import matplotlib.pyplot as plt
import numpy as np
import pointpats
import shapely
from matplotlib.collections import LineCollection, PatchCollection, PathCollection
from matplotlib.colors import to_rgba
from pointpats import HexagonM, PointPattern, QStatistic, RectangleM

from checks import C23, quad
from pv import gen
from pv.core import Skip, scenario

FILES = ["pointpattern.py", "quadrat_statistics.py", "spacetime.py"]
SCENARIOS = []
plt.rcParams["figure.max_open_warning"] = 0


def same_set(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.array_equal(a[np.lexsort(a.T)], b[np.lexsort(b.T)])


def ring_of(path):
    v = np.asarray(path.vertices, float)
    return shapely.Polygon(v)


def new_figure(mon, before, ax=None):
    new = set(plt.get_fignums()) - before
    mon.expect(before <= set(plt.get_fignums()), "other figures stay open", before=before, now=plt.get_fignums())
    return new


@scenario(SCENARIOS, 160, 6000)
def patterns(mon, rng):
    n = int(rng.choice([3, 5, 20, 100])) if mon.index % 40 != 5 else 3000
    p = gen.points(rng, n, mon=mon)
    win, geom = (None, None) if rng.random() < 0.4 else gen.window(mon, rng)
    if rng.random() < 0.4:
        names = (["x", "y"], ["east", "north"])[int(rng.integers(2))]
        pp = PointPattern(p, window=win, names=names)
    else:
        pp = PointPattern(p, window=win)
    o = {}
    w = bool(rng.random() < 0.5)
    hull = bool(rng.random() < 0.4 and gen.noncollinear(p, 1e-2))
    title = None
    if w:
        o["window"] = True
    if hull:
        o["hull"] = True
    if rng.random() < 0.5:
        title = o["title"] = "Events 7"
    get = bool(rng.random() < 0.7)
    if get:
        o["get_ax"] = True
    other = plt.figure()
    before = set(plt.get_fignums())
    out = mon.call(pp.plot, **o)
    new = new_figure(mon, before)
    mon.expect(len(new) == 1, "one new figure", new=new)
    ax = plt.figure(new.pop()).axes[0]
    mon.expect((out is ax) if get else out is None, "axes on request", got=out)
    mon.expect(len(other.axes) == 0, "nothing is drawn elsewhere")
    pts = np.vstack([np.c_[ln.get_xdata(), ln.get_ydata()] for ln in ax.lines] + [c.get_offsets() for c in ax.collections if isinstance(c, PathCollection)])
    mon.expect(same_set(pts, p), "every event is drawn at its place", got=pts[:5], want=p[:5])
    mon.expect(ax.get_title() == (title or "Point Pattern"), "title", got=ax.get_title())
    mon.expect(ax.get_aspect() == 1.0, "equal aspect")
    pcs = [c for c in ax.collections if isinstance(c, PatchCollection)]
    mon.expect(len(pcs) == w + hull, "window and hull on request", got=len(pcs), want=w + hull)
    mon.feature(f"window:{w}", f"hull:{hull}")
    tol = 1e-9 * (gen.spread(p) + gen.mag(p))
    if w:
        got = [ring_of(x) for x in pcs[0].get_paths()]
        want = [shapely.Polygon(q) for q in pp.window.parts] if win is None else [shapely.Polygon(g.exterior) for g in getattr(geom, "geoms", [geom])]
        mon.expect(len(got) == len(want), "all parts of the window are drawn", got=len(got), want=len(want))
        for g in got:
            mon.expect(any(g.hausdorff_distance(x) <= 1e-9 * np.abs(x.bounds).max() for x in want), "outline of the window", got=g.wkt[:200])
        if win is None:
            mon.expect(all((g.bounds[0] <= p[:, 0].min() + tol, g.bounds[3] >= p[:, 1].max() - tol)[k] for g in got for k in (0, 1)), "default window around the events")
    if hull:
        g = ring_of(pcs[-1].get_paths()[0])
        h = shapely.convex_hull(shapely.multipoints(p))
        mon.expect(g.is_valid and g.hausdorff_distance(h) <= 1e-7 * gen.spread(p) + tol, "outline of the hull", got=g.wkt[:200])


def quadrat_axes(mon, ax, p, win, cells, texts, title, coloured=None):
    pts = np.vstack([c.get_offsets() for c in ax.collections if isinstance(c, PathCollection)])
    mon.expect(same_set(pts, p), "every event is drawn at its place", got=pts[:5])
    rings = [r for g in getattr(win, "geoms", [win]) for r in (g.exterior, *g.interiors)]
    lines = [np.c_[ln.get_xdata(), ln.get_ydata()] for ln in ax.lines]
    mon.expect(len(lines) == len(rings) and all(any(np.array_equal(a, np.asarray(r.coords)) for a in lines) for r in rings), "the window is drawn", got=len(lines), want=len(rings))
    pcs = [c for c in ax.collections if isinstance(c, PatchCollection)]
    mon.expect(len(pcs) == 1, "one set of cells", got=len(pcs))
    paths = pcs[0].get_paths()
    mon.expect(len(paths) == len(cells), "every cell is drawn", got=len(paths), want=len(cells))
    scale = gen.spread(p) + gen.mag(p)
    # (cells may be drawn in any order: a path goes with the cell around its centre)
    mid = np.array([q.vertices[:-1].mean(axis=0) if np.array_equal(q.vertices[0], q.vertices[-1]) else q.vertices.mean(axis=0) for q in paths])
    cen = np.array([c for _, c in cells.values()])
    ids = list(cells)
    d = np.abs(mid[:, None] - cen[None]).max(axis=2)
    own = d.argmin(axis=1)
    mon.expect(len(set(own)) == len(own) and (d.min(axis=1) <= 1e-6 * scale).all(), "outlines around their centres")
    for q, k in zip(paths, own, strict=True):
        g = ring_of(q)
        mon.expect(g.hausdorff_distance(cells[ids[k]][0]) <= 1e-9 * scale, "outline of a cell", cell=ids[k])
    mon.expect(len(ax.texts) == len(cells), "one label per cell", got=len(ax.texts))
    used = set()
    for t in ax.texts:
        dd = np.abs(cen - np.array(t.get_position(), float)).max(axis=1)
        k = int(dd.argmin())
        mon.expect(dd[k] <= 1e-9 * scale and k not in used, "labels at the centres", at=t.get_position())
        mon.expect(t.get_ha() == "center" and t.get_va() in ("center", "center_baseline"), "labels centred", got=(t.get_ha(), t.get_va()))
        used.add(k)
        mon.expect(texts(t.get_text(), ids[k]), "label of a cell", cell=ids[k], got=t.get_text())
    mon.expect(ax.get_title() == title, "title", got=ax.get_title(), want=title)
    mon.expect(ax.get_aspect() == 1.0, "equal aspect")
    if coloured is not None:
        a = pcs[0].get_array()
        mon.expect(a is not None and len(a) == len(cells), "cells are coloured by their contribution")
        mon.close(np.asarray(a, float), [coloured[ids[k]] for k in own], "values of the colours", rtol=1e-9, atol=1e-12)
    else:
        fc = pcs[0].get_facecolor()
        mon.expect(len(fc) == 0 or (fc[:, 3] == 0).all(), "cells are not filled", got=fc[:2])


def geometry(m, kind, p):
    lo = p.min(axis=0)
    if kind == "rectangle":
        c = quad.rectangles(p, m.count_column, m.count_row, m.rectangle_width, m.rectangle_height)
        return {i: (shapely.box(*b), ((b[0] + b[2]) / 2, (b[1] + b[3]) / 2)) for i, b in c.items()}
    lh, nc = m.h_length, m.count_column
    sh = lh * np.sqrt(3) / 2
    ang = np.arange(6) * np.pi / 3
    out = {}
    for i in m.point_location_sta():
        c = lo + [1.5 * lh * (i % nc), 2 * sh * (i // nc) + (sh if (i % nc) % 2 else 0)]
        out[i] = (shapely.Polygon(np.c_[np.cos(ang), np.sin(ang)] * lh + c), c)
    return out


@scenario(SCENARIOS, 110, 4000)
def quadrats(mon, rng):
    p = quad.events(mon, rng, int(rng.choice([4, 10, 40])) if mon.index % 11 else 1500)
    if mon.index % 22 == 0:
        # nearly all in one place
        p[5:1400] = p[4] + (p[5:1400] - p[4]) * 1e-3
        mon.feature("crowded")
    kind = ("rectangle", "hexagon")[int(rng.integers(2))]
    b = shapely.box(*p.min(axis=0), *p.max(axis=0))
    s = gen.spread(p)
    wk = int(rng.integers(0, 5))
    win = [None, gen.holed_polygon(rng, p.mean(axis=0), 2 * s), shapely.MultiPolygon([b, shapely.box(*(p.max(axis=0) + s), *(p.max(axis=0) + 2 * s))]), gen.multipolygon(rng, p.mean(axis=0), 2 * s), shapely.GeometryCollection([gen.holed_polygon(rng, p.mean(axis=0), 2 * s), shapely.box(*(p.max(axis=0) + s), *(p.max(axis=0) + 2 * s))])][wk]
    if kind == "rectangle":
        o = dict(nx=int(rng.integers(1, 7)), ny=int(rng.integers(1, 7))) if mon.index % 6 else dict(nx=int(rng.integers(5, 15)), ny=int(rng.integers(7, 12)))
    else:
        o = dict(lh=s * float(rng.choice([0.2, 0.35, 0.6])))
    q = QStatistic(p, kind, window=win, **o)
    w = win if win is not None else b
    cells = geometry(q.mr, kind, p)
    counts = q.mr.point_location_sta()
    e = len(p) / len(counts)
    contrib = {i: (c - e) ** 2 / e for i, c in counts.items()}
    plt.figure()
    before = set(plt.get_fignums())
    title = "Counts!" if rng.random() < 0.5 else "Quadrat Count"
    k = int(rng.integers(0, 4))
    mon.feature(kind, f"plot:{k}", f"window:{wk}")
    to = {} if title == "Quadrat Count" else dict(title=title)

    def shown(text, i):
        return text == str(int(counts[i]))

    def shown_chi2(text, i):
        return abs(float(text) - contrib[i]) <= 0.0051

    if k == 0:
        out = mon.call(q.mr.plot, **to)
        mon.expect(isinstance(out, tuple) and list(out[1]) == list(cells), "axes and cell identifiers", got=out)
        ax = out[0]
        quadrat_axes(mon, ax, p, w, cells, shown, title)
    elif k == 1:
        ax = mon.call(q.plot, **to) if rng.random() < 0.5 else mon.call(q.plot, show="counts", **to)
        quadrat_axes(mon, ax, p, w, cells, shown, title)
    elif k == 2:
        ax = mon.call(q.plot, show="chi2", **to)
        quadrat_axes(mon, ax, p, w, cells, shown_chi2, title, contrib)
    else:
        ax, ids = mon.call(q.mr.plot, show="chi2", chi2_contrib=[contrib[i] for i in cells] if rng.random() < 0.5 else np.array([contrib[i] for i in cells]), **to)
        quadrat_axes(mon, ax, p, w, cells, shown_chi2, title, contrib)
    new = new_figure(mon, before)
    mon.expect(len(new) == 1 and ax.figure.number in new, "one new figure", new=new)


COLOURS = [
    {"focal": "red", "neighbor": "yellow", "nonsig": "grey"},
    {"focal": "blue", "neighbor": "green", "nonsig": "pink"},
    {"focal": "#112233", "neighbor": "#aabbcc", "nonsig": "black"},
    {"focal": "grey", "neighbor": "red", "nonsig": "yellow"},
]


def fitted(mon, rng):
    """a local statistic with what its plots should say"""
    k, s, t, ids, both, R = C23.build(mon, rng)
    if len(np.unique(s, axis=0)) < len(s) or gen.mag(s) > 1e7 or gen.spread(s) < 1e-2 or gen.mag(s) > 1e4 * gen.spread(s):
        raise Skip
    inference = ("permutation", "analytic")[int(rng.integers(2))]
    p = np.asarray(k.p_hypergeom if inference == "analytic" or R == 0 else k.p_sims)
    crit = C23.pick_crit(rng, p)
    if len(s) > 60 and (p < 1).any():
        crit = float(p[p < 1].max())
    o = {}
    if inference != "permutation" or rng.random() < 0.5:
        o["inference"] = inference
    if rng.random() < 0.15:
        crit = 0.05
    else:
        o["crit"] = crit
    c = COLOURS[int(rng.integers(len(COLOURS)))]
    if c is not COLOURS[0] or rng.random() < 0.3:
        o["colors"] = dict(c)
    sig = p <= crit
    near = (both & sig[:, None]).any(axis=0)
    kind = np.where(sig, "focal", np.where(near, "neighbor", "nonsig"))
    for v in set(kind):
        mon.feature("class:" + v)
    lone = sig & ~both.any(axis=1)
    if lone.any():
        raise Skip
    return k, s, ids, both, kind, sig, c, o


def edges_ok(mon, segs, s, both, sig, want_any, tol):
    for a, b in segs:
        da, db = np.abs(s - a).max(axis=1), np.abs(s - b).max(axis=1)
        i, j = int(da.argmin()), int(db.argmin())
        mon.expect(da[i] <= tol and db[j] <= tol and both[i, j], "edges link space-time neighbours", a=a, b=b)
        mon.expect(sig[i] or sig[j], "edges belong to hotspots", a=a, b=b)
    mon.expect((len(segs) > 0) == want_any, "edges are drawn where there are hotspots", got=len(segs), want=want_any)
    if want_any:
        # every member of a hotspot is connected
        q = np.vstack([v for e in segs for v in e])
        m = np.flatnonzero((both & (sig[:, None] | sig[None, :])).any(axis=1))
        off = [int(i) for i in m if np.abs(q - s[i]).max(axis=1).min() > tol]
        mon.expect(not off, "edges connect the members of the hotspots", unconnected=off[:5], members=len(m))


@scenario(SCENARIOS, 110, 4000)
def hotspots(mon, rng):
    k, s, ids, both, kind, sig, c, o = fitted(mon, rng)
    edges = True
    if rng.random() < 0.4:
        edges = o["plot_edges"] = bool(rng.random() < 0.5)
    ecol = "black"
    if rng.random() < 0.5:
        ecol = o["edge_color"] = "purple"
    if rng.random() < 0.3:
        o["point_kwargs"] = dict(markersize=3)
    if rng.random() < 0.3:
        o["edge_kwargs"] = dict(linewidth=3)
    ax = None
    plt.figure()
    if rng.random() < 0.5:
        _, ax = plt.subplots()
        plt.figure()
        o["ax"] = ax
    before = set(plt.get_fignums())
    out = mon.call(k.plot, **o)
    new = new_figure(mon, before)
    mon.expect((out is ax and not new) if ax is not None else (len(new) == 1 and out.figure.number in new), "the given axes are used", new=new)
    got = {}
    for col in out.collections:
        if isinstance(col, LineCollection):
            continue
        fc = np.asarray(col.get_facecolor())
        for n, q in enumerate(np.asarray(col.get_offsets(), float)):
            # (what is drawn last is seen)
            got[tuple(q)] = fc[n % len(fc)]
        if "point_kwargs" in o:
            mon.expect((col.get_sizes() == 3).all(), "options reach the points", got=col.get_sizes())
    mon.expect(set(got) == {tuple(q) for q in s}, "every event is drawn at its place", got=len(got), want=len(s))
    for i, q in enumerate(s):
        mon.expect(np.allclose(got[tuple(q)][:3], to_rgba(c[kind[i]])[:3], atol=1e-9), "colour of an event", event=i, kind=kind[i], got=got[tuple(q)], want=to_rgba(c[kind[i]]))
    lcs = [x for x in out.collections if isinstance(x, LineCollection)]
    segs = [g for x in lcs for g in x.get_segments()]
    hot = bool((sig & both.any(axis=1)).any())
    edges_ok(mon, [(g[0], g[-1]) for g in segs], s, both, sig, edges and hot, 1e-9 * gen.mag(s))
    for x in lcs:
        mon.expect(np.allclose(x.get_color()[0], to_rgba(ecol)), "colour of the edges", got=x.get_color())
        if "edge_kwargs" in o:
            mon.expect((np.asarray(x.get_linewidth()) == 3).all(), "options reach the edges")


@scenario(SCENARIOS, 40, 1200)
def maps(mon, rng):
    import folium

    k, s, ids, both, kind, sig, c, o = fitted(mon, rng)
    edges = True
    if rng.random() < 0.4:
        edges = o["plot_edges"] = bool(rng.random() < 0.5)
    ecol = "black"
    if rng.random() < 0.5:
        ecol = o["edge_color"] = "purple"
    radius = 5
    if rng.random() < 0.4:
        radius = o["radius"] = 9
    style = None
    if rng.random() < 0.2:
        style = o["style_kwds"] = {"radius": 2, "fillOpacity": 0.25}
        radius = 2
    m = mon.call(k.explore, **o)
    mon.expect(isinstance(m, folium.Map), "an interactive map", got=type(m))
    crs = k._gdf.crs
    want = gpd.GeoSeries(gpd.points_from_xy(s[:, 0], s[:, 1]), crs=crs)
    w = shapely.get_coordinates((want.to_crs(4326) if crs is not None else want).values)
    got, segs = {}, []
    for layer in m._children.values():
        if not isinstance(layer, folium.GeoJson):
            continue
        for f in layer.data["features"]:
            st = layer.style_function(f)
            g = f["geometry"]
            if g["type"] == "Point":
                q = np.array(g["coordinates"][:2], float)
                i = int(np.abs(w - q).max(axis=1).argmin())
                mon.expect(np.abs(w[i] - q).max() <= 1e-7 * max(1, np.abs(w).max()), "every event is drawn at its place", at=q)
                got[i] = (st["fillColor"], st["color"])
                mon.expect(st.get("radius", layer.marker.options.get("radius") if layer.marker else None) == radius, "radius of the events", got=st)
            else:
                segs.append(tuple(np.array(v[:2], float) for v in (g["coordinates"][0], g["coordinates"][-1])))
                mon.expect(st["color"] == ecol, "colour of the edges", got=st)
    mon.expect(set(got) == set(range(len(s))), "every event is on the map", missing=sorted(set(range(len(s))) - set(got)))
    for i in range(len(s)):
        mon.expect(got[i] == (c[kind[i]], c[kind[i]]), "colour of an event on the map", event=i, kind=kind[i], got=got[i], want=c[kind[i]])
    hot = bool((sig & both.any(axis=1)).any())
    edges_ok(mon, segs, w, both, sig, edges and hot, 1e-7 * max(1, np.abs(w).max()))
