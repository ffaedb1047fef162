"""Pairs of calls from known generator states, with the global generators watched."""

import copy
import random

import numpy as np
from scipy.spatial.distance import pdist

import pointpats.random as pr
from checks.C11 import make_hull
from pointpats import QStatistic
from pv import gen
from pv.core import scenario

SCENARIOS = []
FILES = ["random.py", "quadrat_statistics.py"]
ASSUMPTIONS = ["two independent continuous patterns coincide with probability zero"]

HULLS = ("bbox", "points", "polygon", "holed", "multi")


def simulator(mon, rng):
    """a function of rng=... only, giving an array"""
    hull, area, ok, kind = make_hull(mon, rng, HULLS)
    b = np.asarray(pr._bbox(hull), float)
    s = float((b[2:] - b[:2]).max())
    n = gen.now_and_then(rng, mon, rng.integers(3, 12), 90, 0.04)
    reps = int(rng.integers(1, 4))
    k = int(rng.integers(0, 6))
    name = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss", "QStatistic")[k]
    if k == 5:
        pts = np.asarray(pr.poisson(hull, size=12, rng=int(rng.integers(2**31))))
        mode = dict(shape="hexagon", lh=s / 3) if rng.random() < 0.4 else dict(nx=3, ny=2)
        w = hull if kind in ("polygon", "holed", "multi") and rng.random() < 0.5 else None

        def q(rng):
            kw = {} if rng is None and random_default else dict(rng=rng)
            o = mon.call(QStatistic, pts, realizations=6, window=w, **mode, **kw)
            return np.r_[o.chi2_realizations, o.chi2_r_pvalue]

        random_default = rng.random() < 0.5
        mon.feature("sim:QStatistic")
        return q, name, n, reps
    kw = dict(size=(n, reps))
    if k in (2, 3):
        kw["n_seeds"] = int(rng.integers(2, 4) if rng.random() < 0.7 else rng.integers(2, min(n, 19) + 1))
    if k == 4:
        kw.update(gamma=0.5, r=0.05 * s, n_iter=15)
    if k in (0, 2, 4) and rng.random() < 0.3:
        kw["size"] = reps
        kw["intensity"] = (n + 0.5) / area
    if k in (1, 3) and rng.random() < 0.5:
        kw["cov"] = (0.2 * s) ** 2
    if k == 2 and rng.random() < 0.5:
        kw["cluster_radius"] = 0.1 * s
    fn = getattr(pr, name)
    mon.feature("sim:" + name)

    def f(rng):
        if rng is None and none_default:
            return np.asarray(mon.call(fn, hull, **kw))
        return np.asarray(mon.call(fn, hull, **kw, rng=rng))

    none_default = rng.random() < 0.5
    return f, name, n, reps


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), *s[2:]), random.getstate()


class Untouched:
    def __init__(self, mon):
        self.mon = mon

    def __enter__(self):
        self.before = state()

    def __exit__(self, *exc):
        if exc[0] is None:
            self.mon.expect(state() == self.before, "global generators untouched")


def differs(name, a, b):
    # chi-square values are discrete: use several realizations
    return not np.array_equal(a, b)


@scenario(SCENARIOS, 500, 10000)
def integer_seeds(mon, rng):
    f, name, n, reps = simulator(mon, rng)
    seed = int(rng.choice([0, 1, 42, 2**31 - 1, int(rng.integers(2**32))]))
    mon.fp(seed)
    with Untouched(mon):
        a = f(seed)
    # disturb everything global in between
    np.random.seed(int(rng.integers(1000)))
    random.seed(int(rng.integers(1000)))
    np.random.random(3)
    with Untouched(mon):
        b = f(seed)
    mon.expect(np.array_equal(a, b), "same seed, same result", sim=name, seed=seed, first=a, second=b)
    if name != "QStatistic":
        c = f(seed + 1)
        mon.expect(differs(name, a, c), "another seed, another result", sim=name, seed=seed, got=c)
        if reps > 1:
            mon.expect(not np.array_equal(a[0], a[1]), "replications differ", sim=name, got=a)
            p = a.reshape(-1, 2)
            mon.expect(len(np.unique(p, axis=0)) == len(p), "no location is repeated", sim=name, got=a)
    else:
        others = [f(seed + 1 + i) for i in range(6)]
        mon.expect(any(differs(name, a, c) for c in others), "other seeds, other results", sim=name, seed=seed)


@scenario(SCENARIOS, 400, 8000)
def generators(mon, rng):
    f, name, n, reps = simulator(mon, rng)
    kind = int(rng.integers(0, 3))
    make = (
        lambda s: np.random.default_rng(s),
        lambda s: np.random.Generator(np.random.MT19937(s)),
        lambda s: np.random.Generator(np.random.Philox(s)),
    )[kind]
    s = int(rng.integers(2**31))
    mon.fp(s)
    g, h = make(s), make(s)
    g.random(5), h.random(5)
    start = copy.deepcopy(g.bit_generator.state)
    with Untouched(mon):
        a1 = f(g)
    mon.expect(repr(g.bit_generator.state) != repr(start), "draws from that very generator", sim=name)
    a2 = f(g)
    b1 = f(h)
    b2 = f(h)
    mon.expect(np.array_equal(a1, b1), "same state, same result", sim=name, first=a1, second=b1)
    mon.expect(np.array_equal(a2, b2), "successive calls continue the stream", sim=name, first=a2, second=b2)
    mon.expect(repr(g.bit_generator.state) == repr(h.bit_generator.state), "equal states after equal calls", sim=name)
    if name != "QStatistic":
        mon.expect(not np.array_equal(a1, a2), "successive calls differ", sim=name, got=a1)
    else:
        a = [a1, a2] + [f(g) for _ in range(5)]
        mon.expect(any(differs(name, a[0], x) for x in a[1:]), "successive calls differ", sim=name, got=a1)


@scenario(SCENARIOS, 40, 800)
def other_sources(mon, rng):
    """the quadrat test also takes legacy random states and bit generators"""
    pts = rng.random((12, 2))
    make = (np.random.RandomState, np.random.MT19937, np.random.PCG64)[int(rng.integers(3))]
    seed = int(rng.integers(2**31))
    mon.feature("source:" + make.__name__)

    def q(source):
        o = mon.call(QStatistic, pts, realizations=8, nx=3, ny=2, rng=source)
        return np.r_[o.chi2_realizations, o.chi2_r_pvalue]

    a, b = make(seed), make(seed)
    with Untouched(mon):
        first = [q(a) for _ in range(6)]
        again = [q(b) for _ in range(6)]
    mon.expect(all(np.array_equal(x, y) for x, y in zip(first, again)), "same state, same results in a row", first=first[1], second=again[1])
    mon.expect(any(not np.array_equal(first[0], x) for x in first[1:]), "successive calls differ", got=first[0])


@scenario(SCENARIOS, 72, 720)
def many(mon, rng):
    """no two of many replications, seeds or clusters share anything"""
    hull, area, ok, kind = make_hull(mon, rng, HULLS)
    # (every simulator with every number of clusters in turn)
    name = ("poisson", "normal", "cluster_poisson", "cluster_normal")[mon.index % 4]
    k = (2, 3, 4, 5, 8, 15)[mon.index // 4 % 6]
    n = 2 * k
    kw = dict(n_seeds=k) if name.startswith("cluster") else {}
    reps = 60 if k < 5 else 20
    mon.feature("many:" + name, f"clusters={k}")
    fn = getattr(pr, name)
    if rng.random() < 0.5:
        out = np.asarray(mon.call(fn, hull, size=(n, reps), **kw, rng=int(rng.integers(2**31))))
    else:
        start = int(rng.integers(2**31))
        out = np.asarray([mon.call(fn, hull, size=n, **kw, rng=start + i) for i in range(reps)])
    p = out.reshape(-1, 2)
    mon.expect(len(np.unique(p, axis=0)) == len(p), "no location is repeated", sim=name, locations=len(p), distinct=len(np.unique(p, axis=0)))
    if name.startswith("cluster"):
        # nor do the members lie around their centres in the same way
        d = (out[:, 1::2] - out[:, ::2]).reshape(-1, 2)
        # (relative to the radius by default, and to the spread by default)
        c = [pdist(o[::2]) for o in out]
        scale = np.array([x.min() if name == "cluster_poisson" else x.mean() for x in c]).repeat(k)
        eps = 1e-12 * max(1.0, np.abs(p).max() / scale.min())
        if eps < 1e-8:
            d = d / scale[:, None]
            mon.expect(len(np.unique(np.round(d / (10 * eps)), axis=0)) == len(d), "no arrangement is repeated", sim=name)


@scenario(SCENARIOS, 60, 600)
def large_seeds(mon, rng):
    """seeds apart by a power of two or a round number are different seeds"""
    pts = rng.random((14, 2))
    name = ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss", "QStatistic")[mon.index % 6]
    seed = int(rng.integers(2**20))
    step = (2**16, 2**30, 2**31, 2**32, 2**32 - 1, 2**63, 10**6, 10**9)[mon.index // 6 % 8]
    mon.feature("sim:" + name, f"step={step}")

    def f(s):
        if name == "QStatistic":
            o = mon.call(QStatistic, pts, realizations=40, nx=3, ny=3, rng=s)
            return np.asarray(o.chi2_realizations)
        kw = dict(gamma=0.5, r=0.05, n_iter=15) if name == "strauss" else dict(n_seeds=2) if name.startswith("cluster") else {}
        return np.asarray(mon.call(getattr(pr, name), np.array([0, 0, 1.0, 1.0]), size=5, rng=s, **kw))

    a, b = f(seed), f(seed + step)
    mon.expect(np.array_equal(b, f(seed + step)), "same seed, same result", sim=name, seed=seed + step)
    mon.expect(not np.array_equal(a, b), "another seed, another result", sim=name, seed=seed, other=seed + step)


@scenario(SCENARIOS, 250, 5000)
def unseeded(mon, rng):
    f, name, n, reps = simulator(mon, rng)
    got = []
    for _ in range(2 if name != "QStatistic" else 7):
        # the same global state before each call
        np.random.seed(7)
        random.seed(7)
        with Untouched(mon):
            got.append(f(None))
    mon.expect(any(not np.array_equal(got[0], x) for x in got[1:]), "without a seed calls differ", sim=name, got=got[0])
