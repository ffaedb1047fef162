"""Random, lattice and edge-aligned event sets, offsets, 1 to 12 rows and columns, cell
sizes around and beyond the extent, hexagon sides incl. exact divisors; every event is
located by exhaustive search over independently built cells."""

import math

import geopandas as gpd
import numpy as np
import pointpats
import shapely
import shapely.affinity
from pointpats import HexagonM, QStatistic, RectangleM

from checks import quad
from pv import gen
from pv.core import Skip, scenario

FILES = ["quadrat_statistics.py"]
ASSUMPTIONS = ["event sets with an extent in both dimensions", "events within rounding of a cell edge may count in either cell"]
SCENARIOS = []


def given(mon, rng, p):
    k = int(rng.integers(0, 4))
    mon.feature(f"form:{k}")
    return (p, p.tolist(), pointpats.PointPattern(p), gpd.GeoSeries(gpd.points_from_xy(p[:, 0], p[:, 1])))[k]


def counted(mon, counts, inside, n, ids):
    """does an assignment of the events to cells exist that gives these counts

    inside: for each event the cells (positions in ids) that contain it"""
    mon.expect(list(counts) == list(ids) or set(counts) == set(ids), "cells are identified once each", got=list(counts)[:20], want=list(ids)[:20])
    mon.expect(sum(counts.values()) == n and all(v >= 0 for v in counts.values()), "counts add up to the events", got=sum(counts.values()), want=n)
    lo = {i: 0 for i in ids}
    hi = {i: 0 for i in ids}
    for cells in inside:
        mon.expect(len(cells) > 0, "every event is in a cell of the grid")
        for c in cells:
            hi[c] += 1
        if len(cells) == 1:
            lo[cells[0]] += 1
    bad = [(i, counts[i], lo[i], hi[i]) for i in ids if not lo[i] <= counts[i] <= hi[i]]
    mon.expect(not bad, "events are counted in cells that contain them", cells=bad[:5])
    if any(len(c) > 1 for c in inside):
        # a maximum flow decides
        import networkx as nx

        g = nx.DiGraph()
        for k, cells in enumerate(inside):
            if len(cells) > 1:
                g.add_edge("s", ("e", k), capacity=1)
                for c in cells:
                    g.add_edge(("e", k), ("c", c), capacity=1)
        for i in ids:
            if counts[i] > lo[i]:
                g.add_edge(("c", i), "t", capacity=counts[i] - lo[i])
        free = sum(len(c) > 1 for c in inside)
        ok = "t" in g and nx.maximum_flow_value(g, "s", "t") == free
        mon.expect(ok or free == 0, "events on edges are counted in one of their cells")


def outlines(mon, m, want_poly, centres, ids, scale):
    got = list(m._iter_cells())
    mon.expect([c[0] for c in got] == list(ids), "outlines in the order of the counts", got=[c[0] for c in got][:20])
    for i, poly, c in got:
        w = want_poly[i]
        mon.close(c, centres[i], "cell centres", rtol=0, atol=1e-9 * scale)
        mon.expect(shapely.symmetric_difference(poly, w).area <= 1e-7 * w.area or poly.hausdorff_distance(w) <= 1e-9 * scale, "cell outlines", cell=i, got=poly.wkt, want=w.wkt)
    polys = [c[1] for c in got]
    if len(polys) <= 40:
        i, j = np.triu_indices(len(polys), 1)
        a = np.array(polys)
        # (shrunk by a little, so that touching outlines do not meet)
        a = np.array([shapely.affinity.scale(x, 1 - 1e-6, 1 - 1e-6) for x in a])
        hit = shapely.intersects(a[i], a[j])
        mon.expect(not hit.any(), "cells do not overlap", cells=[(got[k][0], got[m][0]) for k, m in zip(i[hit], j[hit], strict=True)][:5])


@scenario(SCENARIOS, 380, 14000)
def rectangles(mon, rng):
    p = quad.events(mon, rng) if mon.index % 25 != 3 else quad.events(mon, rng, 2500)
    n = len(p)
    rx, ry = np.ptp(p, axis=0)
    data = given(mon, rng, p)
    scale = gen.spread(p) + gen.mag(p) * 1e-3
    if rng.random() < 0.55 or mon.index % 25 == 3:
        nx, ny = int(rng.integers(1, 13)), int(rng.integers(1, 13))
        if mon.index % 25 == 3:
            # many narrow cells
            nx, ny = [(int(rng.integers(60, 140)), int(rng.integers(2, 12))), (int(rng.integers(2, 12)), int(rng.integers(52, 140))), (30, 25)][mon.index // 25 % 3]
            mon.feature("many cells")
        if rng.random() < 0.2:
            m, nx, ny = mon.call(RectangleM, data), 3, 3
        elif rng.random() < 0.5:
            m = mon.call(RectangleM, data, nx, ny)
        else:
            m = mon.call(RectangleM, data, count_column=nx, count_row=ny)
        w, h = rx / nx, ry / ny
        mon.feature("by number")
    else:
        q = rng.choice([0.13, 0.25, 1 / 3, 0.5, 0.71, 1.0, 1.7], 2)
        w, h = float(rx * q[0]), float(ry * q[1])
        if rng.random() < 0.3:
            w, h = max(1.0, np.ceil(w)), max(1.0, np.ceil(h))
        cx, cy = quad.cover(rx, w), quad.cover(ry, h)
        if max(cx) * max(cy) > 2000:
            raise Skip
        # the numbers of columns and rows do not matter then
        m = mon.call(RectangleM, data, *rng.integers(1, 9, 2).tolist(), rectangle_width=w, rectangle_height=h)
        mon.expect(m.count_column in cx and m.count_row in cy, "as many cells of the size as cover the box", got=(m.count_column, m.count_row), want=(cx, cy))
        nx, ny = m.count_column, m.count_row
        mon.feature("by size")
    mon.expect((m.count_column, m.count_row) == (nx, ny), "columns and rows", got=(m.count_column, m.count_row), want=(nx, ny))
    mon.close([m.rectangle_width, m.rectangle_height], [w, h], "size of the cells", rtol=1e-12)
    mon.expect(m.num == nx * ny, "number of cells", got=m.num, want=nx * ny)
    mon.close(m.mbb, np.r_[p.min(axis=0), p.max(axis=0)], "bounding box of the events", rtol=0)
    mon.expect(m.window.equals(shapely.box(*p.min(axis=0), *p.max(axis=0))), "window: bounding box by default")
    cells = quad.rectangles(p, nx, ny, w, h)
    counts = mon.call(m.point_location_sta)
    b = np.array(list(cells.values()))
    tol = 1e-12 * gen.mag(p) + 1e-11 * gen.spread(p)
    ins = ((p[:, None, :] >= b[None, :, :2] - tol) & (p[:, None, :] <= b[None, :, 2:] + tol)).all(axis=2)
    ids = list(cells)
    counted(mon, counts, [[ids[j] for j in np.flatnonzero(r)] for r in ins], n, ids)
    mon.expect(mon.call(m.point_location_sta) == counts, "counting again gives the same")
    outlines(mon, m, {i: shapely.box(*c) for i, c in cells.items()}, {i: ((c[0] + c[2]) / 2, (c[1] + c[3]) / 2) for i, c in cells.items()}, ids, scale)


@scenario(SCENARIOS, 380, 14000)
def hexagons(mon, rng):
    p = quad.events(mon, rng)
    if mon.index % 20 == 7:
        # exact positions far from the origin
        e = float(2 ** rng.integers(20, 27))
        p = rng.integers(0, 8193, (int(rng.choice([50, 400])), 2)) / 1024 + [e, 2 * e]
        mon.feature("far")
        mon.fp(p)
    n = len(p)
    rx, ry = np.ptp(p, axis=0)
    k = int(rng.integers(0, 6))
    c = math.cos(math.pi / 6)
    if k == 0:
        lh = float(rx / rng.integers(1, 9))
    elif k == 1:
        lh = float(rx / (0.5 + 1.5 * rng.integers(0, 6)))
    elif k == 2:
        lh = float(ry / c / rng.integers(1, 12))
    elif k == 3:
        lh = float(max(1, round(gen.spread(p) / 4))) if gen.spread(p) >= 2 else gen.spread(p) / 4
    elif k == 4:
        lh = gen.spread(p) * float(rng.choice([0.9, 1.3, 3]))
    else:
        lh = gen.spread(p) * (0.06 + 0.5 * rng.random())
    if mon.index % 25 == 4:
        # many rows or columns
        lh = float((rx / 65, ry / 58, gen.spread(p) / 40)[mon.index // 25 % 3])
        mon.feature("many cells")
    if mon.index % 20 == 7:
        lh = float(rng.choice([0.3, 1, 1.7]))
    if (rx / lh + 2) * (ry / lh + 2) > 6000 or n * (rx / lh + 2) * (ry / lh + 2) > 2e6:
        raise Skip
    mon.feature(f"side:{k}")
    m = mon.call(HexagonM, given(mon, rng, p), lh)
    counts = mon.call(m.point_location_sta)
    ids = list(counts)
    mon.expect(m.num == len(ids), "number of cells", got=m.num, want=len(ids))
    mon.expect(m.h_length == lh, "side of the cells")
    mon.close(m.mbb, np.r_[p.min(axis=0), p.max(axis=0)], "bounding box of the events", rtol=0)
    x0, y0 = p.min(axis=0)
    sh = lh * c
    nc = m.count_column
    cen = {i: (x0 + 1.5 * lh * (i % nc), y0 + 2 * sh * (i // nc) + (sh if (i % nc) % 2 else 0)) for i in ids}
    # the grid: no column or row more than needed, none missing
    tol = 1e-9 * gen.spread(p) + 1e-12 * gen.mag(p)
    cols = {max(1, 1 + math.ceil((rx - lh / 2 + e) / (1.5 * lh))) if rx + e > lh / 2 else 1 for e in (-tol, 0, tol)}
    mon.expect(nc in cols, "columns cover the box", got=nc, want=cols)
    for col in range(nc):
        rows = sorted(i // nc for i in ids if i % nc == col)
        if col % 2 == 0:
            want = {max(1, 1 + math.ceil((ry - sh + e) / (2 * sh))) if ry + e > sh else 1 for e in (-tol, 0, tol)}
        else:
            want = {max(1, math.ceil((ry + e) / (2 * sh))) for e in (-tol, 0, tol)}
        mon.expect(rows == list(range(len(rows))) and len(rows) in want, "rows cover the box", column=col, got=rows, want=want)
    C = np.array([cen[i] for i in ids])
    out = quad.hex_distance(p[:, None, :], C[None], lh)
    ins = out <= 1e-9 * (lh + gen.spread(p)) + 4e-16 * gen.mag(p) * 8
    counted(mon, counts, [[ids[j] for j in np.flatnonzero(r)] for r in ins], n, ids)
    ang = np.arange(6) * np.pi / 3
    polys = {i: shapely.Polygon(np.c_[np.cos(ang), np.sin(ang)] * lh + cen[i]) for i in ids}
    outlines(mon, m, polys, cen, ids, gen.spread(p) + lh + gen.mag(p) * 1e-3)


@scenario(SCENARIOS, 160, 5000)
def statistic_grids(mon, rng):
    """the test uses the very grid that was asked for"""
    p = quad.events(mon, rng)
    win = None if rng.random() < 0.6 else shapely.box(*p.min(axis=0), *p.max(axis=0)).buffer(gen.spread(p) * 0.3)
    k = int(rng.integers(0, 3))
    if k == 0:
        nx, ny = rng.integers(1, 9, 2).tolist()
        q = mon.call(QStatistic, p, nx=nx, ny=ny, window=win) if rng.random() < 0.7 else mon.call(QStatistic, p, "rectangle", nx, ny, window=win)
        r = mon.call(RectangleM, p, nx, ny)
    elif k == 1:
        w, h = (np.ptp(p, axis=0) * rng.choice([0.21, 0.4, 0.8], 2)).tolist()
        q = mon.call(QStatistic, p, "rectangle", rectangle_width=w, rectangle_height=h, window=win)
        r = mon.call(RectangleM, p, rectangle_width=w, rectangle_height=h)
    else:
        lh = gen.spread(p) * float(rng.choice([0.1, 0.3, 0.8]))
        q = mon.call(QStatistic, p, shape="hexagon", lh=lh, window=win)
        r = mon.call(HexagonM, p, lh)
    a, b = q.mr.point_location_sta(), r.point_location_sta()
    mon.expect(a == b and list(a) == list(b) and type(q.mr) is type(r), "grid of the statistic", got=a, want=b)
    mon.expect(q.cell_ids == list(b), "cell identifiers of the statistic")
    mon.expect(q.window.equals(win if win is not None else shapely.box(*p.min(axis=0), *p.max(axis=0))), "window of the statistic")
    mon.close(q.mbb, np.r_[p.min(axis=0), p.max(axis=0)], "bounding box of the statistic", rtol=0)
    mon.expect(np.array_equal(q.points, p), "events of the statistic")
