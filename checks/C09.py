"""Set operations against models on plain rows."""

import numpy as np
import pandas as pd

from pointpats import PointPattern
from checks.C08 import make_window
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["pointpattern.py"]


def table(mon, rng, n=None, missing=False):
    """rows with duplicates: columns, coordinate names, data"""
    n = n or gen.now_and_then(rng, mon, rng.choice([1, 2, 3, 5, 9, 20, 90]), 600, 0.01)
    p = gen.points(rng, n, ("uniform", "lattice", "duplicates"), mon=mon)
    if rng.random() < 0.6:
        p = p[rng.integers(0, max(1, n // 2), n)]
    marks = [rng.integers(0, 3, n) * 1.5 for _ in range(int(rng.choice([0, 1, 2, 3, 6], p=[0.3, 0.3, 0.3, 0.05, 0.05])))]
    if marks and rng.random() < 0.15:
        mon.feature("close marks")
        marks[0] = 7.5 + marks[0] * 1e-9
    if marks and missing and rng.random() < 0.15:
        mon.feature("missing marks")
        marks[-1][rng.random(n) < 0.5] = np.nan
    k = int(rng.integers(0, 5))
    if k == 0:
        names, cn = None, None
        cols = ["x", "y"] + [f"mark_{i}" for i in range(len(marks))]
        data = np.column_stack([p] + marks)
        xy = ["x", "y"]
    elif k == 1:
        names = ["lon", "lat"] + [f"m{i}" for i in range(len(marks))]
        cn = None
        cols, xy = names, ["lon", "lat"]
        data = np.column_stack([p] + marks)
    elif k == 2:
        # coordinates are not the first columns
        names = [f"m{i}" for i in range(len(marks))] + ["e", "n"]
        cn = ["e", "n"] if rng.random() < 0.7 else ["n", "e"]
        cols, xy = names, cn
        data = np.column_stack(marks + [p])
    else:
        # (names need not be strings)
        names, cn = None, ["u", "v"] if k == 3 else [(10, 20), (0, 1), ("x", 7)][int(rng.integers(3))]
        cn = list(cn)
        cols = cn + [f"mark_{i}" for i in range(len(marks))]
        xy = cn
        data = np.column_stack([p] + marks)
    df = pd.DataFrame(data, columns=cols)
    if marks and k in (1, 2) and rng.random() < 0.4:
        mon.feature("text marks")
        c = [x for x in cols if x not in xy][0]
        df[c] = [f"v{int(v)}" if v == v else np.nan for v in df[c]]
        data = df
    mon.feature(f"naming:{k}", f"marks:{len(marks)}")
    mon.fp(df.to_numpy(dtype=float) if not isinstance(data, pd.DataFrame) else repr(df))
    return df, data, names, cn, list(xy)


def build(mon, rng, window=True, missing=False):
    df, data, names, cn, xy = table(mon, rng, missing=missing)
    w = None
    if window and rng.random() < 0.5:
        w, _ = make_window(mon, rng, df[xy].to_numpy(float))
    if isinstance(data, pd.DataFrame):
        data = data.copy()
        data.columns = range(data.shape[1])
        if rng.random() < 0.5:
            mon.feature("labelled rows")
            data.index = rng.permutation(len(data)) * 3 + 5
    elif rng.random() < 0.15:
        mon.feature("labelled rows")
        data = pd.DataFrame(data, index=rng.permutation(len(data)))
    pp = mon.call(PointPattern, data, window=w, names=None if names is None else list(names), coord_names=None if cn is None else list(cn))
    return pp, df, xy, w


def rows(df):
    return [tuple("missing" if v != v else v for v in r) for r in df.itertuples(index=False)]


def same(mon, pp, want, xy, what, cols=None):
    """the pattern's table, coordinate columns and points are as expected"""
    cols = cols or list(want.columns)
    mon.expect(list(pp.df.columns) == cols, what + ": columns", got=list(pp.df.columns), want=cols)
    mon.expect(rows(pp.df) == rows(want[cols]), what + ": rows", got=pp.df, want=want)
    mon.expect(list(pp.coord_names) == xy, what + ": coordinate columns", got=pp.coord_names, want=xy)
    pts = np.asarray(pp.points, float)
    mon.expect(np.array_equal(pts, want[xy].to_numpy(float)), what + ": points", got=pts)
    mon.expect(len(pp) == len(want) and pp.n == len(want), what + ": length", got=(len(pp), pp.n), want=len(want))


def distinct(df):
    seen, keep = set(), []
    for i, r in enumerate(rows(df)):
        if r not in seen:
            seen.add(r)
            keep.append(i)
    return df.iloc[keep]


@scenario(SCENARIOS, 450, 8000)
def construction(mon, rng):
    pp, df, xy, w = build(mon, rng)
    same(mon, pp, df, xy, "construction")
    if w is not None:
        mon.expect(pp.window is w or pp.window.area == w.area, "construction: window")


@scenario(SCENARIOS, 600, 10000)
def deduplication(mon, rng):
    pp, df, xy, w = build(mon, rng, missing=True)
    win = pp.window
    q = mon.call(pp.unique)
    same(mon, pp, df, xy, "unique leaves its operand")
    want = distinct(df)
    same(mon, q, want, xy, "unique")
    mon.close(q.window.area, win.area, "unique: window")
    mon.close(list(q.window.bounding_box), list(win.bounding_box), "unique: window")
    mon.expect(len(q.window.holes) == len(win.holes) and len(q.window.parts) == len(win.parts), "unique: window parts and holes")
    mon.expect(pp.window is win, "unique leaves its operand's window")
    again = mon.call(q.unique)
    same(mon, again, want, xy, "unique twice")
    mon.feature("had duplicates" if len(want) < len(df) else "no duplicates")


@scenario(SCENARIOS, 600, 10000)
def superposition(mon, rng):
    pp, df, xy, w = build(mon, rng, missing=True)
    # another pattern with the same columns, sharing some rows
    m = int(rng.choice([1, 3, 8]))
    other = df.iloc[rng.integers(0, len(df), m)].reset_index(drop=True)
    if rng.random() < 0.6:
        c = xy[int(rng.integers(2))]
        other[c] = other[c] + rng.integers(0, 2, m) * 0.5
    data = other.copy()
    data.columns = range(data.shape[1])
    qq = mon.call(PointPattern, data, names=list(df.columns), coord_names=list(xy))
    if rng.random() < 0.2:
        qq, other = pp, df
    s = mon.call(pp.superimpose, qq)
    want = distinct(pd.concat([df, other]))
    same(mon, s, want, xy, "superimpose")
    same(mon, pp, df, xy, "superimpose leaves the first operand")
    same(mon, qq, other, xy, "superimpose leaves the second operand")
    # patterns with other attributes
    k = int(rng.integers(0, 3))
    bad = other.copy()
    names = list(df.columns)
    cn = list(xy)
    if k == 0:
        names = [f"{c}_" for c in names]
        cn = [f"{c}_" for c in cn]
    elif k == 1:
        bad["extra"] = 1.0
        names = names + ["extra"]
    else:
        cn = cn[::-1]
    bad.columns = range(bad.shape[1])
    rr = mon.call(PointPattern, bad, names=names, coord_names=cn)
    mon.refused(pp.superimpose, rr)
    mon.refused(rr.superimpose, pp)
    same(mon, pp, df, xy, "a refused superimposition leaves the operand")


@scenario(SCENARIOS, 450, 8000)
def explosion(mon, rng):
    pp, df, xy, w = build(mon, rng)
    marks = [c for c in df.columns if c not in xy]
    if rng.random() < 0.2:
        mon.feature("by a coordinate")
        marks = list(xy)
    if not marks or rng.random() < 0.2:
        v = rng.integers(0, 4 if rng.random() < 0.6 else 300, len(df)).astype(float)
        if rng.random() < 0.2:
            v = 1e4 + v * 1e-7
        if rng.random() < 0.3:
            v = np.array([f"k{int(i)}" for i in v])
        mon.call(pp.add_marks, [v], mark_names=["added"])
        df = df.assign(added=v)
        marks.append("added")
    c = marks[int(rng.integers(len(marks)))]
    out = mon.call(pp.explode, c)
    vals = sorted(set(df[c].tolist()))
    mon.expect(len(out) == len(vals), "explode: one pattern per value", got=len(out), want=len(vals))
    for q, v in zip(out, vals):
        same(mon, q, df[df[c] == v], xy, "explode")
    mon.expect(sum(len(q) for q in out) == len(df), "explode: conserves events")
    same(mon, pp, df, xy, "explode leaves its operand")


@scenario(SCENARIOS, 450, 8000)
def marking(mon, rng):
    pp, df, xy, w = build(mon, rng)
    n = len(df)
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(1, 4)) if rng.random() < 0.9 else 12
        vs = [rng.random(n) if rng.random() < 0.7 else np.array([f"t{i}" for i in rng.integers(0, 3, n)]) for _ in range(k)]
        before = list(pp.df.columns)
        if rng.random() < 0.6:
            names = [f"q{len(before) + i}" for i in range(k)]
            mon.call(pp.add_marks, vs, mark_names=names)
            new = list(pp.df.columns)[len(before):]
            mon.expect(new == names, "add_marks: named columns", got=new, want=names)
        else:
            mon.call(pp.add_marks, [v.tolist() for v in vs] if rng.random() < 0.3 else vs)
            new = list(pp.df.columns)[len(before):]
            mon.expect(len(new) == k and len(set(new) | set(before)) == k + len(before), "add_marks: new columns under default names", got=list(pp.df.columns))
            want = [f"mark_{len(before) - 2 + 1 + i}" for i in range(k)]
            mon.expect(new == want, "add_marks: default names count the marks", got=new, want=want)
        for c, v in zip(new, vs):
            df = df.assign(**{c: v})
        same(mon, pp, df, xy, "add_marks")
        q = mon.call(pp.unique)
        same(mon, q, distinct(df), xy, "unique after add_marks")


@scenario(SCENARIOS, 450, 8000)
def membership(mon, rng):
    pp, df, xy, w = build(mon, rng)
    pts = set(map(tuple, df[xy].to_numpy(float).tolist()))
    cand = [tuple(r) for r in df[xy].to_numpy(float).tolist()]
    a = df[xy].to_numpy(float)
    # combinations of coordinates of different events, swapped, other columns
    i, j = rng.integers(0, len(a), (2, 8))
    cand += list(zip(a[i, 0].tolist(), a[j, 1].tolist()))
    cand += [(y, x) for x, y in cand[:3]]
    cand += [(x + 1e-7 * (abs(x) + 1), y) for x, y in cand[:3]]
    num = df.select_dtypes("number")
    if num.shape[1] >= 2:
        cand += [tuple(map(float, r[:2])) for r in num.to_numpy()[:4]]
        cand += [tuple(map(float, r[-2:])) for r in num.to_numpy()[:4]]
    for c in cand:
        got = mon.call(pp.__contains__, c)
        mon.expect(bool(got) == (c in pts), "membership", point=c, got=got)
    mon.expect((cand[0] in pp) is True or (cand[0] in pp) == 1, "membership: in operator")
