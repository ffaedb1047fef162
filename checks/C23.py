"""Event sets with several space-time clusters and ties, arbitrary unique identifiers,
frames and arrays, critical values on and between the p-values; adjacency, hotspot rows
and clusters recomputed exhaustively with a union-find."""

import geopandas as gpd
import numpy as np
import pandas as pd
import shapely
from pointpats import KnoxLocal

from checks import st
from pv import gen
from pv.core import Skip, scenario

FILES = ["spacetime.py"]
SCENARIOS = []


def clustered(mon, rng):
    """several groups of events near in space and time, and strays"""
    g = int(gen.now_and_then(rng, mon, rng.integers(1, 6), 30, 0.015))
    big = mon.index % 20 == 17
    if big:
        g = int(rng.integers(3, 7))
    s, t = [], []
    for i in range(g):
        m = int(rng.integers(1, 7)) if not big else int(rng.integers(22, 30))
        c = rng.random(2) * 100 + [i * 40, 0]
        s.append(c + rng.normal(size=(m, 2)))
        t.append(rng.integers(0, 40) + rng.integers(0, 3, m))
    m = int(rng.integers(1, 12))
    s.append(rng.random((m, 2)) * [300, 100])
    t.append(rng.integers(0, 40, m))
    s, t = np.vstack(s), np.concatenate(t).reshape(-1, 1)
    if big:
        mon.feature("crowded")
    o = rng.permutation(len(s))
    s, t = s[o], t[o]
    if rng.random() < 0.5 and not big:
        s = s.round()
    k = int(rng.integers(0, 8))
    if k < 2:
        t = t + 0.5
    if k in (1, 2):
        # shortly before or after each other
        t = t + rng.integers(0, 3, t.shape) * 2.0 ** -float(rng.choice([6, 24, 40]))
        mon.feature("moments apart")
    if len(s) < 3:
        raise Skip
    delta, tau = float(rng.choice([2.5, 4.3, 30.2])), float(rng.choice([0, 1, 2, 8]))
    if rng.random() < 0.15:
        u = 2.0 ** float(rng.choice([-60, -30, -10, 12, 30]))
        t, tau = t * u, tau * u
        mon.feature("other time unit")
    ds, dt = st.distances(s), st.time_distances(t)
    if (np.abs(ds - delta)[np.triu_indices(len(s), 1)] < 1e-9).any():
        raise Skip
    return s, t, delta, tau, st.close(ds, delta, True), st.close(dt, tau, True)


def labels(mon, rng, n):
    k = int(rng.integers(0, 10))
    mon.feature(f"ids:{k}")
    if k == 0:
        return np.arange(n)
    if k == 1:
        return rng.permutation(n)
    if k == 2:
        return np.array([f"e{i}" for i in rng.permutation(n)], dtype=object)
    if k == 3:
        return np.arange(n)[::-1]
    if k == 4:
        return rng.permutation(n) + n // 2
    if k == 5:
        return rng.permutation(n) * 1000 - 500
    if k == 7:
        return pd.DatetimeIndex(np.datetime64("2019-12-30") + rng.permutation(n) * np.timedelta64(int(rng.choice([1, 7, 24])), "h"))
    if k == 8:
        # the index of some frame, with its name
        return pd.Index([f"e{i}" for i in rng.permutation(n)], name=str(rng.choice(["id", "focal", "time", "index", "geometry", "neighbor"])))
    if k == 9:
        return rng.permutation(n) / 4
    return np.arange(n) + 1


def build(mon, rng, R=None):
    if rng.random() < 0.75 or mon.index % 20 == 17:
        s, t, delta, tau, cs, ct = clustered(mon, rng)
    else:
        n = int(rng.choice([3, 5, 10, 20]))
        s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    n = len(s)
    mon.fp(np.asarray(s)), mon.fp(np.asarray(t))
    R = int(rng.choice([0, 1, 2, 9, 19], p=[0.3, 0.1, 0.1, 0.25, 0.25])) if R is None else R
    if n > 60:
        R = min(R, 1)
    ids = labels(mon, rng, n)
    crs = [None, "EPSG:3857", "EPSG:32633"][int(rng.integers(3))]
    if rng.random() < 0.5:
        mon.feature("from array")
        if (ids == np.arange(n)).all() and rng.random() < 0.5:
            k = mon.call(KnoxLocal, s, t, delta, tau, permutations=R, crs=crs)
        else:
            k = mon.call(KnoxLocal, s, t, delta, tau, permutations=R, crs=crs, ids=ids if rng.random() < 0.5 else list(ids))
    else:
        mon.feature("from frame")
        tc = ("T", "time", "when", "focal", "color")[int(rng.integers(5))]
        df = gpd.GeoDataFrame({"v": "x", tc: t.ravel()}, index=ids, geometry=gpd.points_from_xy(s[:, 0], s[:, 1]), crs=crs)
        if rng.random() < 0.5:
            df.index.name = ("id", "index", "focal")[int(rng.integers(3))]
        if rng.random() < 0.5:
            df = df.rename_geometry("geom")
        k = mon.call(KnoxLocal.from_dataframe, df, tc, delta, tau, permutations=R)
    return k, np.asarray(s, float), np.asarray(t).ravel(), list(ids), cs & ct, R


def orientation(a, b):
    return "lead" if a < b else "lag" if a > b else "coincident"


def adjacency(mon, k, t, ids, both):
    a = k.adjlist
    mon.expect(list(a.columns) == ["focal", "neighbor", "orientation"], "adjacency columns", got=list(a.columns))
    pos = {v: i for i, v in enumerate(ids)}
    got = [(pos.get(f), pos.get(m)) for f, m in zip(a.focal, a.neighbor, strict=True)]
    want = [(int(i), int(j)) for i, j in np.argwhere(both)]
    mon.expect(sorted(got, key=str) == sorted(want, key=str), "every pair in both directions once", got=got[:10], want=want[:10], n=(len(got), len(want)))
    mon.expect(got == want, "adjacency is sorted by the events' order", got=got[:10], want=want[:10])
    ori = [orientation(t[i], t[j]) for i, j in want]
    mon.expect(list(a.orientation) == ori, "orientation of neighbours", got=list(a.orientation)[:10], want=ori[:10])


def components(pairs):
    root = {}

    def find(x):
        while root.setdefault(x, x) != x:
            x = root[x]
        return x

    for a, b in pairs:
        root[find(a)] = find(b)
    return {x: find(x) for x in list(root)}


def table(mon, k, s, t, ids, both, p, crit, inference, keep, default=False):
    n = len(s)
    if default:
        h = mon.call(k.hotspots)
    else:
        h = mon.call(k.hotspots, crit=crit, inference=inference, keep_neighbors=keep)
    warned = mon.warned_with(UserWarning, "analytic")
    sig = p <= crit
    has = both.any(1)
    links = [(i, j) for i, j in np.argwhere(both) if sig[i] or sig[j]]
    member = {int(i) for e in links for i in e}
    want = {i for i in member if sig[i]} | (member if keep else set())
    pos = {v: i for i, v in enumerate(ids)}
    got = [pos.get(f) for f in h["focal"]]
    mon.feature("no hotspot" if not want else "hotspots", "with neighbours" if keep and any(not sig[i] for i in want) else "only significant")
    mon.expect(len(set(got)) == len(got) and set(got) == want, "rows of the hotspot table", got=got, want=sorted(want), sig=np.flatnonzero(sig & has))
    mon.expect(isinstance(h, gpd.GeoDataFrame) and h.crs == k._gdf.crs, "hotspot table is a geographic frame", got=type(h))
    if not want:
        return h, warned
    mon.close(h["pvalue"].to_numpy(float), p[got], "p-values of the hotspot table", rtol=1e-12)
    mon.close(h["focal_time"].to_numpy(float), t[got].astype(float), "times of the hotspot table", rtol=0)
    mon.expect(np.array_equal(shapely.get_coordinates(h.geometry.values), s[got]), "locations of the hotspot table")
    lset = {(int(i), int(j)) for i, j in links}
    for i, m, o in zip(got, h["neighbor"], h["orientation"], strict=True):
        j = pos.get(m)
        mon.expect((i, j) in lset, "the named neighbour is a neighbour", focal=i, neighbor=j)
        mon.expect(o == orientation(t[i], t[j]), "orientation in the hotspot table", focal=i, neighbor=j, got=o)
    comp = components(links)
    lab = dict(zip(got, h["cluster"], strict=True))
    mon.expect(not any(pd.isna(v) for v in lab.values()), "clusters are labelled", got=lab)
    byc, byl = {}, {}
    for i in got:
        byc.setdefault(comp[i], set()).add(lab[i])
        byl.setdefault(lab[i], set()).add(comp[i])
    mon.expect(all(len(v) == 1 for v in byc.values()), "linked events share a cluster", got=lab)
    mon.expect(all(len(v) == 1 for v in byl.values()), "clusters are linked", got=lab, comp=comp)
    mon.feature(f"clusters:{min(len(byc), 4)}")
    return h, warned


def pick_crit(rng, p):
    p = np.unique(p[p < 1])
    if len(p) and rng.random() < 0.5:
        v = float(rng.choice(p))
        # on a p-value: below or equal is significant
        return v
    return float(rng.choice([0.05, 0.01, 0.1, 0.2, 0.5, 0.99]))


@scenario(SCENARIOS, 320, 12000)
def adjacent(mon, rng):
    k, s, t, ids, both, R = build(mon, rng, 0)
    adjacency(mon, k, t, ids, both)


@scenario(SCENARIOS, 320, 12000)
def hotspots(mon, rng):
    k, s, t, ids, both, R = build(mon, rng)
    adjacency(mon, k, t, ids, both)
    first = k.adjlist.copy()
    for _ in range(int(rng.integers(1, 4))):
        inference = ("permutation", "analytic")[int(rng.integers(2))]
        p = np.asarray(k.p_hypergeom if inference == "analytic" or R == 0 else k.p_sims)
        crit = pick_crit(rng, p)
        keep = bool(rng.random() < 0.6)
        h, warned = table(mon, k, s, t, ids, both, p, crit, inference, keep)
        mon.expect(warned == (R == 0 and inference == "permutation"), "a substituted inference is announced", R=R, inference=inference)
    pd.testing.assert_frame_equal(first, k.adjlist)


@scenario(SCENARIOS, 60, 2000)
def defaults(mon, rng):
    k, s, t, ids, both, R = build(mon, rng, int(rng.choice([0, 39])))
    p = np.asarray(k.p_hypergeom if R == 0 else k.p_sims)
    table(mon, k, s, t, ids, both, p, 0.05, "permutation", True, default=True)
    a = mon.call(k.hotspots, inference="analytic")
    b = mon.call(k.hotspots, 0.05, "analytic", True)
    mon.expect(list(a.focal) == list(b.focal), "default critical value")


@scenario(SCENARIOS, 20, 300)
def refusals(mon, rng):
    k, *_ = build(mon, rng, 0)
    mon.refused(k.hotspots, inference=("perm", "sim", "hypergeom")[int(rng.integers(3))], _types=(ValueError,))
