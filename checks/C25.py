"""Shapefiles written to scratch directories (random events, integer, float and date
columns, decoy columns, names with dots and upper-case extensions) and frames with odd
indexes, reference systems, geometry kinds and time types; values compared one by one."""

import datetime as dt
import os
import shutil
import tempfile

import geopandas as gpd
import libpysal as lps
import numpy as np
import pandas as pd
import shapely
from pointpats import Knox, KnoxLocal, SpaceTimeEvents
from pyproj.crs import DerivedGeographicCRS, GeographicCRS
from pyproj.crs.coordinate_operation import RotatedLatitudeLongitudeConversion

from checks import st
from pv import gen
from pv.core import scenario

FILES = ["spacetime.py"]
SCENARIOS = []
DEGREES = (
    "EPSG:4326", "EPSG:4269", "EPSG:4979", "OGC:CRS84", "EPSG:4326+5773", "+proj=longlat +towgs84=1,2,3 +ellps=GRS80 +type=crs",
    # (a rotated pole)
    DerivedGeographicCRS(base_crs=GeographicCRS(), conversion=RotatedLatitudeLongitudeConversion(o_lat_p=39.25, o_lon_p=18.0)),
)


def write(rng, d, name, p, cols, specs):
    path = os.path.join(d, name + ".shp")
    f = lps.io.open(path, "w")
    for q in p:
        f.write(lps.cg.Point(tuple(map(float, q))))
    f.close()
    db = lps.io.open(os.path.join(d, name + ".dbf"), "w")
    db.header = list(cols)
    db.field_spec = list(specs)
    for row in zip(*cols.values(), strict=True):
        db.write(list(row))
    db.close()
    return path


@scenario(SCENARIOS, 1000, 12000)
def files(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 10, 60]), rng.choice([300, 1500, 4000]), 0.05)
    p = gen.points(rng, n, mon=mon)
    kind = ("int", "float", "date")[int(rng.integers(3))]
    if kind == "int":
        t = [int(v) for v in rng.integers(-50, 5000, n)]
        spec = ("N", 9, 0)
    elif kind == "float":
        t = [float(v) for v in rng.integers(0, 10**6, n) / 8.0]
        spec = ("N", 18, 5)
    else:
        base = dt.date(int(rng.choice([rng.integers(1905, 2030), 1583, 1799])), 1, 15)
        t = [base + dt.timedelta(days=int(v)) for v in rng.integers(0, int(rng.choice([3, 400, 9000, 150000])), n)]
        spec = ("D", 8, 0)
    order = ("as they come", "as they come", "earliest first", "latest first")[int(rng.integers(4))]
    mon.feature("records:" + order)
    if order != "as they come":
        t.sort(reverse=order == "latest first")
    other = [int(v) for v in rng.integers(0, 99, n)]
    name = ("events", "events.v2", "a.b.c", "ev ents", "shp.events")[int(rng.integers(5))]
    col = ("T", "when", "DATE")[int(rng.integers(3))]
    cols, specs = {}, []
    for c in rng.permutation(["A", col, "Z"]):
        cols[str(c)] = t if c == col else other
        specs.append(spec if c == col else ("N", 9, 0))
    infer = bool(rng.random() < 0.5)
    mon.feature("column:" + kind, f"infer:{infer}", "name:" + name)
    top = tempfile.mkdtemp()
    d = os.path.join(top, ("data", "my.shp", "a.dbf.d", ".hidden")[int(rng.integers(4))])
    os.mkdir(d)
    try:
        path = write(rng, d, name, p, cols, specs)
        # a decoy beside it
        write(rng, d, "other", p[::-1] + 1, {"A": other, col: t[::-1], "Z": other}, [("N", 9, 0), spec, ("N", 9, 0)])
        if name == "events.v2":
            write(rng, d, "events", p[::-1] + 1, {"A": other, col: t[::-1], "Z": other}, [("N", 9, 0), spec, ("N", 9, 0)])
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            e = mon.call(SpaceTimeEvents, path, col, infer) if infer or rng.random() < 0.5 else mon.call(SpaceTimeEvents, path, col)
    finally:
        shutil.rmtree(top)
    mon.expect(e.n == n, "number of events", got=e.n, want=n)
    mon.expect(e.space.shape == (n, 2) and np.array_equal(e.space, p), "coordinates in file order", got=e.space, want=p)
    mon.expect(e.x.shape == (n, 1) and e.y.shape == (n, 1) and np.array_equal(np.hstack([e.x, e.y]), p), "x and y in file order")
    mon.expect(e.t.shape == (n, 1) and e.time.shape == (n, 2), "shapes of times", t=e.t.shape, time=e.time.shape)
    want = [(v - min(t)).days for v in t] if kind == "date" and infer else t
    mon.expect([v for v in e.t[:, 0]] == want, "times in file order", got=list(e.t[:, 0])[:5], want=want[:5])
    mon.expect([v for v in e.time[:, 0]] == want and (e.time[:, 1] == 1).all(), "time and unit columns", got=e.time)


def frame(mon, rng, n=None):
    n = n or int(rng.choice([3, 6, 12, 20]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    crs = [None, "EPSG:3857", "EPSG:5070"][int(rng.integers(3))]
    tc = ("T", "time", "t 1", "geometry2")[int(rng.integers(4))]
    tt = t.ravel()
    dtype = int(rng.integers(0, 4))
    if dtype == 1:
        tt = tt.astype(float)
    elif dtype == 2 and np.array_equal(tt, tt.astype(int)) and np.abs(tt).max() < 30000:
        tt = tt.astype(np.int16)
    df = pd.DataFrame({"Tx": np.arange(n)[::-1], tc: tt}, index=gen.odd_index(rng, n))
    name = ("geometry", "geom", "where")[int(rng.integers(3))]
    df[name] = gpd.points_from_xy(np.asarray(s)[:, 0], np.asarray(s)[:, 1])
    df["zz"] = "x"
    if rng.random() < 0.3:
        # another geometry column that is not the active one
        df["other"] = gpd.points_from_xy(rng.random(n), rng.random(n))
    return gpd.GeoDataFrame(df, geometry=name, crs=crs), tc, s, t, delta, tau, cs, ct


@scenario(SCENARIOS, 160, 5000)
def frames(mon, rng):
    df, tc, s, t, delta, tau, cs, ct = frame(mon, rng)
    before = df.copy()
    R = int(rng.choice([0, 9]))
    keep = bool(rng.random() < 0.5)
    seed = int(rng.integers(2**32))
    np.random.seed(seed)
    k = mon.call(Knox.from_dataframe, df, tc, delta, tau, R, keep) if rng.random() < 0.5 else mon.call(Knox.from_dataframe, df, tc, delta, tau, permutations=R, keep=keep)
    mon.expect(mon.warned_with(UserWarning, "crs") == (df.crs is None), "missing reference system is announced")
    np.random.seed(seed)
    a = mon.call(Knox, np.asarray(s, float), t, delta, tau, permutations=R, keep=keep)
    for name in ("nst", "statistic_", "p_poisson", "p_sim", "sim", "observed", "expected"):
        mon.expect(hasattr(k, name) == hasattr(a, name), "frame and array construction agree: " + name)
        if hasattr(a, name):
            mon.expect(np.array_equal(getattr(k, name), getattr(a, name)), "frame and array construction agree: " + name, got=getattr(k, name), want=getattr(a, name))
    mon.expect(k.nst == (cs & ct).sum() // 2, "frame construction counts the pairs", got=k.nst)
    mon.expect(np.array_equal(np.asarray(k.s_coords, float), np.asarray(s, float)) and np.array_equal(np.asarray(k.t_coords, float), np.asarray(t, float)), "coordinates and times row by row")
    np.random.seed(seed)
    k = mon.call(KnoxLocal.from_dataframe, df, tc, delta, tau, R, keep)
    mon.expect(mon.warned_with(UserWarning, "crs") == (df.crs is None), "missing reference system is announced")
    np.random.seed(seed)
    a = mon.call(KnoxLocal, np.asarray(s, float), t, delta, tau, permutations=R, keep=keep, ids=df.index.values, crs=df.crs)
    for name in ("nst", "nsti", "p_poisson", "p_sim", "sim", "p_sims", "sims", "p_hypergeom", "observed", "expected"):
        mon.expect(hasattr(k, name) == hasattr(a, name), "local frame and array construction agree: " + name)
        if hasattr(a, name):
            mon.expect(np.array_equal(getattr(k, name), getattr(a, name)), "local frame and array construction agree: " + name)
    mon.expect((np.asarray(k.nsti) == (cs & ct).sum(1)).all(), "local counts row by row")
    mon.expect(k.adjlist.equals(a.adjlist), "same neighbours by identifier")
    mon.expect(np.array_equal(np.asarray(k.s_coords, float), np.asarray(s, float)) and np.array_equal(np.asarray(k.t_coords, float), np.asarray(t, float)), "local coordinates and times row by row")
    h = mon.call(k.hotspots, 0.9, "analytic")
    mon.expect(h.crs == df.crs and set(h.focal) <= set(df.index), "identifiers and reference system of the frame", got=h.crs)
    pd.testing.assert_frame_equal(pd.DataFrame(df), pd.DataFrame(before))


@scenario(SCENARIOS, 120, 3000)
def refusals(mon, rng):
    df, tc, s, t, delta, tau, cs, ct = frame(mon, rng, 8)
    k = int(rng.integers(0, 5))
    make = (Knox.from_dataframe, KnoxLocal.from_dataframe)[int(rng.integers(2))]
    mon.call(make, df, tc, delta, tau, 0)
    bad = df.copy()
    g = bad.geometry.name
    if k == 0:
        bad = gpd.GeoDataFrame(pd.DataFrame(df.drop(columns=g)).assign(**{g: gpd.points_from_xy(rng.uniform(-80, 80, 8), rng.uniform(-80, 80, 8))}), geometry=g, crs=DEGREES[int(rng.integers(len(DEGREES)))])
    elif k == 1:
        # one of the geometries is no point
        geoms = list(df.geometry)
        i = int(rng.integers(8))
        geoms[i] = (shapely.LineString([(0, 0), (1, 1)]), shapely.MultiPoint([geoms[i]]), geoms[i].buffer(1))[int(rng.integers(3))]
        bad = gpd.GeoDataFrame(pd.DataFrame(df.drop(columns=g)), geometry=gpd.GeoSeries(geoms, index=df.index, crs=df.crs))
    elif k == 2:
        bad[tc] = pd.to_datetime("2020-01-01") + pd.to_timedelta(np.arange(8), unit="D")
    elif k == 3:
        bad[tc] = [str(i) for i in range(8)]
    else:
        bad[tc] = [dt.date(2020, 1, 1 + i) for i in range(8)]
    mon.feature(f"refusal:{k}")
    mon.refused(make, bad, tc, delta, tau, 0, _types=(ValueError,))
