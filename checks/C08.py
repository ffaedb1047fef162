"""Random histories over a pattern, a model of its current state, and all descriptors."""

import contextlib
import io
import re

import libpysal
import numpy as np
import pandas as pd

from checks.C04 import chain, shoelace
from pointpats import PointPattern, as_window
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["pointpattern.py", "util.py", "window.py"]

NUM = r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"


def ring_area(r):
    return abs(shoelace(np.asarray(r, float)[:-1]))


def make_window(mon, rng, p):
    """a window and its area"""
    c = p.mean(axis=0)
    s = gen.spread(p) + 1.0
    k = int(rng.integers(0, 4))
    if k == 0:
        mon.feature("window:box")
        lo, hi = c - s * (0.5 + rng.random(2)), c + s * (0.5 + rng.random(2))
        ring = [(lo[0], lo[1]), (lo[0], hi[1]), (hi[0], hi[1]), (hi[0], lo[1]), (lo[0], lo[1])]
        return as_window(libpysal.cg.Polygon(ring)), float(np.prod(hi - lo))
    if k == 1:
        mon.feature("window:polygon")
        g = gen.star_polygon(rng, None, c, s)
        return as_window(libpysal.cg.Polygon(list(g.exterior.coords)[::-1])), g.area
    if k == 2:
        mon.feature("window:holed")
        g = gen.holed_polygon(rng, c, s)
        return (
            as_window(libpysal.cg.Polygon([list(g.exterior.coords)[::-1]], [list(h.coords) for h in g.interiors])),
            g.area,
        )
    mon.feature("window:parts")
    a = gen.star_polygon(rng, 6, c - [2 * s, 0], s)
    b = gen.star_polygon(rng, 5, c + [2 * s, 0], s)
    return (
        as_window(libpysal.cg.Polygon([list(a.exterior.coords)[::-1], list(b.exterior.coords)[::-1]])),
        a.area + b.area,
    )


class Model:
    def __init__(self, p, window_area, marks):
        self.p = p
        self.window_area = window_area
        self.marks = marks
        f = p
        self.box = np.r_[f.min(axis=0), f.max(axis=0)]
        self.box_area = float((self.box[2] - self.box[0]) * (self.box[3] - self.box[1]))
        self.planar = gen.noncollinear(p)
        self.hull_area = shoelace(chain(p)) if self.planar else None


def read(mon, pp, m, what):
    n = len(m.p)
    area_tol = 1e-9 * gen.spread(m.p) ** 2 + 1e-14 * gen.mag(m.p) * gen.spread(m.p)
    if what == "n":
        mon.expect(pp.n == n, "n", got=pp.n, want=n)
    elif what == "len":
        mon.expect(len(pp) == n, "len", got=len(pp), want=n)
    elif what == "mbb":
        mon.expect(np.array_equal(np.asarray(pp.mbb, float), m.box), "mbb", got=pp.mbb, want=m.box)
    elif what == "mbb_area":
        mon.close(pp.mbb_area, m.box_area, "mbb_area", rtol=1e-12)
    elif what == "rot":
        mon.close(pp.rot, 0.25 * min(m.box[2] - m.box[0], m.box[3] - m.box[1]), "rot", rtol=1e-12)
    elif what == "lambda_mbb":
        if m.box_area > 0:
            mon.close(pp.lambda_mbb, n / m.box_area, "lambda_mbb", rtol=1e-12)
    elif what == "hull":
        if m.planar:
            h = np.asarray(pp.hull, float)
            ev = set(map(tuple, m.p.tolist()))
            mon.expect(all(tuple(c) in ev for c in h.tolist()), "hull: events", got=h)
            mon.close(shoelace(h), m.hull_area, "hull", rtol=1e-8, atol=area_tol)
    elif what == "hull_area":
        if m.planar:
            mon.close(pp.hull_area, m.hull_area, "hull_area", rtol=1e-8, atol=area_tol)
    elif what == "lambda_hull":
        if m.planar:
            mon.close(1 / pp.lambda_hull, m.hull_area / n, "lambda_hull", rtol=1e-8, atol=area_tol / n)
    elif what == "lambda_window":
        if m.window_area > 0:
            mon.close(1 / pp.lambda_window, m.window_area / n, "lambda_window", rtol=1e-8, atol=1e-13 * gen.mag(m.p) ** 2 / n)
    elif what == "window":
        mon.close(pp.window.area, m.window_area, "window", rtol=1e-8, atol=1e-13 * gen.mag(m.p) ** 2)
        if pp.window is not pp.window or pp.get_window() is not pp.window:
            mon.fail("window: one and the same object")
    elif what == "points":
        q = np.asarray(pp.points, float)
        mon.expect(np.array_equal(q, m.p), "points", got=q, want=m.p)
    elif what == "marks":
        for k, v in m.marks.items():
            mon.expect(k in pp.df.columns and np.array_equal(pp.df[k], v), "marks", name=k)
    elif what == "summary":
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            mon.call(pp.summary)
        t = out.getvalue()
        c = re.search(r"(\d+) points", t)
        mon.expect(c and int(c.group(1)) == n, "summary: number of points", text=t)
        line = next((x for x in t.splitlines() if x.startswith("Bounding rectangle")), "")
        nums = [float(x) for x in re.findall(NUM, line)]
        mon.expect(len(nums) == 4, "summary: bounding rectangle", text=t)
        mon.close(nums, m.box, "summary: bounding rectangle", rtol=1e-12)
        if m.window_area > 0:
            line = next((x for x in t.splitlines() if x.startswith("Area of window")), "")
            mon.close(float(line.split(":")[1]), m.window_area, "summary: area of window", rtol=1e-8, atol=1e-13 * gen.mag(m.p) ** 2)
            line = next((x for x in t.splitlines() if x.startswith("Intensity estimate for window")), "")
            mon.close(1 / float(line.split(":")[1]), m.window_area / n, "summary: intensity", rtol=1e-8, atol=1e-13 * gen.mag(m.p) ** 2 / n)
        mon.expect(str(pp.df.head()) in t, "summary: first rows", text=t)


READS = (
    "n len mbb mbb_area rot lambda_mbb hull hull_area lambda_hull lambda_window "
    "window points marks summary"
).split()


@scenario(SCENARIOS, 2000, 12000)
def histories(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 4, 6, 10, 30, 80, 120]), 1500, 0.01)
    p = gen.points(rng, n, mon=mon)
    if n >= 30 and rng.random() < 0.3:
        # most events are corners of the hull
        mon.feature("round")
        t = np.sort(rng.random(n)) * 2 * np.pi
        p = np.c_[np.cos(t), np.sin(t)] * gen.spread(p) + p[0]
    marks = {}
    given = None
    if rng.random() < 0.4:
        given, area = make_window(mon, rng, p)
    k = int(rng.integers(0, 4))
    if k == 3:
        pp = mon.call(PointPattern, pd.DataFrame(p, index=rng.permutation(n) * 2), window=given)
    elif k == 0:
        pp = mon.call(PointPattern, p, window=given)
    elif k == 1:
        pp = mon.call(PointPattern, p.tolist(), window=given, names=["lon", "lat"])
    else:
        a = rng.random(n)
        pp = mon.call(PointPattern, np.c_[a, p], window=given, names=["a", "e", "n"], coord_names=["e", "n"])
        marks["a"] = a
    if given is not None and pp.window is not given:
        mon.close(pp.window.area, given.area, "window as given")
    m = Model(p, 0.0, marks)
    m.window_area = area if given is not None else m.box_area
    if given is None:
        w = pp.window
        mon.close(list(w.bounding_box), m.box, "default window is the bounding box", rtol=1e-12)
    ops = []
    for _ in range(int(rng.integers(3, 14))):
        k = int(rng.integers(0, 10))
        if k < 5:
            what = READS[int(rng.integers(len(READS)))]
            ops.append("read " + what)
            read(mon, pp, m, what)
        elif k < 7:
            w, m.window_area = make_window(mon, rng, p)
            if rng.random() < 0.15:
                w, m.window_area = None, m.box_area
            ops.append("window" if w is not None else "no window")
            if rng.random() < 0.5:
                mon.call(pp.set_window, w)
            else:
                pp.window = w
            read(mon, pp, m, "window")
            if rng.random() < 0.7:
                read(mon, pp, m, "lambda_window")
        elif k == 7:
            name = f"z{len(m.marks)}"
            v = rng.random(n)
            ops.append("mark")
            mon.call(pp.add_marks, [v], mark_names=[name])
            m.marks[name] = v
            read(mon, pp, m, "marks")
        elif k == 8:
            ops.append("flip")
            mon.call(pp.flip_coordinates)
        elif n > 1:
            ops.append("derived")
            j = int(rng.integers(0, 4))
            if j == 0:
                pp.knn(1)
            elif j == 1:
                pp.unique()
            elif j == 2:
                pp.superimpose(pp)
            else:
                pp.find_pairs(pp.rot)
    for o in ops:
        mon.feature("op:" + o.split()[0])
    mon.events.append(("history", ops))
    for what in [READS[i] for i in rng.permutation(len(READS))]:
        read(mon, pp, m, what)


@scenario(SCENARIOS, 400, 4000)
def independent_patterns(mon, rng):
    """descriptors of two patterns read in turns never mix"""
    ms = []
    for _ in range(int(rng.integers(2, 4))):
        p = gen.points(rng, int(rng.integers(3, 12)), mon=mon)
        pp = mon.call(PointPattern, p)
        m = Model(p, 0, {})
        m.window_area = m.box_area
        ms.append((pp, m))
    for _ in range(25):
        pp, m = ms[int(rng.integers(len(ms)))]
        read(mon, pp, m, READS[int(rng.integers(len(READS)))])
