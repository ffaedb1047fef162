"""Event sets over rectangle and hexagon grids, default, polygon and multi-part windows,
0 to 499 realizations and all kinds of seeds; statistics by direct summation over counts
of exhaustively located events, realizations against an own simulation."""

import numpy as np
import pointpats
import shapely
from pointpats import QStatistic
from scipy import special

from checks import quad, st
from pv import gen
from pv.core import Skip, scenario

FILES = ["quadrat_statistics.py", "random.py"]
ASSUMPTIONS = ["statistical verdicts are given at error rates of 1e-12 per comparison", "event sets with an extent in both dimensions"]
SCENARIOS = []


def grid(mon, rng, p, few=False):
    """options of a grid"""
    rx, ry = np.ptp(p, axis=0)
    k = int(rng.integers(0, 3))
    if k == 0:
        o = dict(nx=int(rng.integers(1, 5 if few else 9)), ny=int(rng.integers(1, 5 if few else 9)))
        if o["nx"] * o["ny"] < 2:
            o["nx"] = 2
        if not few and mon.index % 20 == 9:
            o = dict(nx=int(rng.integers(12, 20)), ny=int(rng.integers(12, 20)))
            mon.feature("many cells")
        elif rng.random() < 0.2:
            o = {}
        elif rng.random() < 0.3:
            o["shape"] = "rectangle"
    elif k == 1:
        o = dict(rectangle_width=float(rx * rng.choice([0.27, 0.41, 0.7])), rectangle_height=float(ry * rng.choice([0.27, 0.41, 0.7])))
    else:
        o = dict(shape="hexagon", lh=float(max(rx, ry) * rng.choice([0.2, 0.35, 0.5] if few else [0.1, 0.25, 0.5])))
        if (rx / o["lh"] + 2) * (ry / o["lh"] + 2) > 600:
            raise Skip
    mon.feature(("by number", "by size", "hexagons")[k])
    return o


def windows(mon, rng, p):
    s = gen.spread(p)
    c = (p.min(axis=0) + p.max(axis=0)) / 2
    k = int(rng.integers(0, 7))
    mon.feature(f"window:{k}")
    b = shapely.box(*p.min(axis=0), *p.max(axis=0))
    if k < 2:
        return None
    if k == 2:
        return b.buffer(0.2 * s, quad_segs=2)
    if k == 3:
        return gen.star_polygon(rng, 8, c, 1.5 * s, 0.6)
    if k == 6:
        # many parts
        side = int(rng.integers(3, 5))
        return shapely.MultiPolygon([shapely.box(*(np.r_[c, c] + s * np.array([i, j, i + 0.6, j + 0.6]))) for i in range(side) for j in range(side)])
    if k == 4:
        # bands, so that columns and rows are of different kinds
        at = c + np.outer([-0.5, 0.5], [[0, s], [s, 0]][int(rng.integers(2))])
        h = 0.04 * s
        bands = [shapely.box(*(v - [h if at[0, 0] != at[1, 0] else 0.5 * s, h if at[0, 1] != at[1, 1] else 0.5 * s]), *(v + [h if at[0, 0] != at[1, 0] else 0.5 * s, h if at[0, 1] != at[1, 1] else 0.5 * s])) for v in at]
        return shapely.MultiPolygon(bands)
    return shapely.MultiPolygon([b, shapely.box(*(p.max(axis=0) + 0.5 * s), *(p.max(axis=0) + 0.9 * s))])


def judge(mon, q, p, R):
    counts = q.mr.point_location_sta()
    o = np.array([float(v) for v in counts.values()])
    mon.expect(o.sum() == len(p), "all events are counted", got=o.sum(), want=len(p))
    k = len(o)
    e = len(p) / k
    contrib = (o - e) ** 2 / e
    mon.close(q.chi2, contrib.sum(), "chi-square value", rtol=1e-9, atol=1e-9)
    mon.expect(q.cell_ids == list(counts), "cell identifiers in order")
    mon.close(q.chi2_contrib, contrib, "contribution of each cell", rtol=1e-9, atol=1e-12)
    mon.expect(q.df == k - 1, "degrees of freedom", got=q.df, want=k - 1)
    if k > 1:
        mon.close(q.chi2_pvalue, special.gammaincc((k - 1) / 2, contrib.sum() / 2), "analytic p-value", rtol=1e-7, atol=1e-12)
    has = R and R > 0
    mon.expect(hasattr(q, "chi2_realizations") == bool(has) and hasattr(q, "chi2_r_pvalue") == bool(has), "simulated inference exactly with realizations", R=R)
    if has:
        sims = np.asarray(q.chi2_realizations)
        mon.expect(sims.shape == (R,), "one simulated value per realization", got=sims.shape)
        mon.expect((sims >= -1e-9).all() and np.isfinite(sims).all(), "simulated values are chi-square values")
        hi, lo = (1 + (sims >= q.chi2 - 1e-12).sum()) / (R + 1), (1 + (sims >= q.chi2).sum()) / (R + 1)
        mon.expect(abs(q.chi2_r_pvalue - hi) < 1e-12 or abs(q.chi2_r_pvalue - lo) < 1e-12, "simulated p-value", got=q.chi2_r_pvalue, want=(lo, hi))
        if q.shape == "rectangle":
            # the counts of as many events as observed over as many cells
            n = len(p)
            sq = (sims + n) * n / k
            mon.expect((np.abs(sq - sq.round()) < 1e-6 * np.maximum(sq, 1)).all() and (sq.round() % 2 == n % 2).all(), "simulated values come from as many events over the same grid", sums=sq[:6], n=n, k=k)
    return counts


def seed(rng):
    s = int(rng.integers(2**31))
    k = int(rng.integers(0, 5))
    return (s, np.random.default_rng(s), np.random.RandomState(s), np.int64(s), None)[k]


@scenario(SCENARIOS, 320, 12000)
def values(mon, rng):
    p = quad.events(mon, rng)
    o = grid(mon, rng, p)
    win = windows(mon, rng, p)
    R = int(rng.choice([0, 0, 1, 2, 5])) if len(p) <= 100 else 0
    if win is not None and rng.random() < 0.7:
        o["window"] = win
    q = mon.call(QStatistic, p if rng.random() < 0.6 else pointpats.PointPattern(p), realizations=R, rng=seed(rng), **o)
    mon.feature(f"R{R}")
    judge(mon, q, p, R)
    if q.shape == "rectangle" and "nx" in o:
        mon.expect(len(q.cell_ids) == o["nx"] * o["ny"], "cells of the test", got=len(q.cell_ids))
    if q.shape == "rectangle" and len(o) - ("window" in o) == 0:
        mon.expect(len(q.cell_ids) == 9, "three by three cells by default")
    mon.expect(isinstance(q.rng, np.random.Generator), "the source of randomness is a generator")


def simulate(rng, win, n, q, reps):
    """chi-square values of n events spread over a window, counted by the same grid"""
    out = []
    b = np.array(win.bounds)
    shapely.prepare(win)
    for _ in range(reps):
        x = np.empty((0, 2))
        while len(x) < n:
            y = rng.uniform(b[:2], b[2:], (2 * n + 5, 2))
            x = np.vstack([x, y[shapely.contains_xy(win, y)]])
        x = x[:n]
        lo, ext = x.min(axis=0), np.ptp(x, axis=0)
        if q.shape == "rectangle":
            nx, ny = q.mr.count_column, q.mr.count_row
            ij = np.minimum(np.floor((x - lo) / ext * [nx, ny]), [nx - 1, ny - 1]).astype(int)
            c = np.bincount(ij[:, 1] * nx + ij[:, 0], minlength=nx * ny)
        else:
            lh = q.mr.h_length
            sh = lh * np.sqrt(3) / 2
            nc = 1 if ext[0] <= lh / 2 else 1 + int(np.ceil((ext[0] - lh / 2) / (1.5 * lh)))
            ev = 1 if ext[1] <= sh else 1 + int(np.ceil((ext[1] - sh) / (2 * sh)))
            od = max(1, int(np.ceil(ext[1] / (2 * sh))))
            cen = np.array([(1.5 * lh * j, 2 * sh * i + (sh if j % 2 else 0)) for j in range(nc) for i in range(od if j % 2 else ev)])
            d = ((x[:, None, :] - lo - cen[None]) ** 2).sum(axis=2)
            c = np.bincount(d.argmin(axis=1), minlength=len(cen))
        e = n / len(c)
        out.append(((c - e) ** 2 / e).sum())
    return np.array(out)


@scenario(SCENARIOS, 32, 800)
def realizations(mon, rng):
    n = int(rng.choice([8, 15, 30, 60], p=[0.3, 0.3, 0.3, 0.1]))
    p = quad.events(mon, rng, n, lattice=False if rng.random() < 0.8 else True)
    if np.ptp(p, axis=0).min() < 0.05 * np.ptp(p, axis=0).max():
        raise Skip
    p = p - p.mean(axis=0)
    o = grid(mon, rng, p, few=True)
    win = windows(mon, rng, p)
    R = int(rng.choice([99, 199])) if n > 20 else int(rng.choice([199, 299]))
    q = mon.call(QStatistic, p, realizations=R, rng=seed(rng), window=win, **o)
    judge(mon, q, p, R)
    w = win if win is not None else shapely.box(*p.min(axis=0), *p.max(axis=0))
    ref = simulate(rng, w, n, q, 800)
    sims = q.chi2_realizations
    st.drawn_anew(mon, sims, st.chance_of_equal(ref), "realizations are drawn anew")
    for v in np.unique(np.quantile(ref, [0.05, 0.25, 0.5, 0.75, 0.95])):
        v = v - 1e-7
        a, b = int((sims >= v).sum()), int((ref >= v).sum())
        mon.expect(st.two_proportions_ok(a, R, b, len(ref)), "distribution of complete randomness in the window", at=v, got=a / R, want=b / len(ref))
    mon.expect(len(np.unique(sims)) > 1 or np.ptp(ref) < 1e-6 or (ref.round(6) == ref[0].round(6)).mean() > 0.8, "realizations vary", sims=sims[:5])


@scenario(SCENARIOS, 40, 1200)
def reproducible(mon, rng):
    p = quad.events(mon, rng, int(rng.choice([5, 12, 25])))
    o = grid(mon, rng, p, few=True)
    R = int(rng.choice([1, 3, 9]))
    s = int(rng.integers(2**31))
    make = (lambda: s, lambda: np.random.default_rng(s), lambda: np.random.RandomState(s), lambda: np.random.SeedSequence(s), lambda: np.random.PCG64(s))[int(rng.integers(5))]
    a = mon.call(QStatistic, p, realizations=R, rng=make(), **o)
    np.random.seed(int(rng.integers(2**31)))
    state = np.random.get_state()[1].copy()
    b = mon.call(QStatistic, p, realizations=R, rng=make(), **o)
    mon.expect((a.chi2_realizations == b.chi2_realizations).all() and a.chi2_r_pvalue == b.chi2_r_pvalue, "a seed gives the same realizations")
    mon.expect((np.random.get_state()[1] == state).all(), "the global generator is left alone")
    z = mon.call(QStatistic, p, realizations=0, **o)
    mon.expect(a.chi2 == z.chi2 and a.chi2_pvalue == z.chi2_pvalue, "realizations do not change the observed test")
