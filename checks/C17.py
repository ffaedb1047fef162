"""K and L at every support value against exhaustive pair counts."""

import numpy as np
from scipy.spatial.distance import squareform

from checks import ripley
from pointpats import k, l
from pv import gen
from pv.core import Skip, scenario

SCENARIOS = []
FILES = ["distance_statistics.py"]
ASSUMPTIONS = ["distances within a relative 1e-9 of a support value may count on either side where the package computes them"]


def make(mon, rng, nmin=2):
    p = ripley.events(mon, rng, nmin)
    if (np.ptp(p, axis=0) <= 0).any():
        raise Skip
    return p


def area(p):
    w = np.ptp(p, axis=0)
    return float(w[0] * w[1])


def judge(mon, got, want_support, p, d, what, slack, fn="k", linear=False):
    mon.expect(isinstance(got, tuple) and len(got) == 2, what + ": support and values", got=got)
    s, v = np.asarray(got[0], float), np.asarray(got[1], float)
    mon.close(s, want_support, what + ": support as asked for", rtol=1e-9, atol=1e-300)
    mon.expect(v.shape == s.shape, what + ": one value per support value", got=v.shape)
    n = len(p)
    lo = (d[None] < s[:, None] - slack).sum(axis=1)
    hi = (d[None] < s[:, None] + slack).sum(axis=1) if slack else lo
    a, b = (2 * c * area(p) / n**2 for c in (lo, hi))
    if fn == "l":
        a, b = (np.sqrt(x / np.pi) - (s if linear else 0) for x in (a, b))
    tol = 1e-9 * (np.abs(b) + (np.abs(s) if linear else 0)) + 1e-300
    mon.expect((v >= a - tol).all() and (v <= b + tol).all(), what + ": pairs closer than each support value", got=v, low=a, high=b, support=s)
    if not linear and (np.diff(s) >= 0).all():
        mon.expect((np.diff(v) >= 0).all(), what + ": non-decreasing", got=v)
    return s, v


def request(mon, rng):
    if rng.random() < 0.6:
        return "k", k, {}
    lin = bool(rng.random() < 0.5)
    mon.feature(f"linearized={lin}")
    return "l", l, dict(linearized=lin) if lin or rng.random() < 0.5 else {}


@scenario(SCENARIOS, 900, 25000)
def computed(mon, rng):
    p = make(mon, rng)
    # (a support of so many steps also needs a tree of the metric)
    name, dist = ripley.PAIR_METRICS[int(rng.choice(4, p=[0.55, 0.2, 0.15, 0.1]))]
    mon.feature(f"metric:{getattr(name, '__name__', name)}")
    d = dist(p, p)[np.triu_indices(len(p), 1)]
    nn = ripley.nearest_other(p, dist)
    scale = float(np.median(d)) or float(d.max())
    arg, want = ripley.support(mon, rng, scale, nn.max())
    fn, call, kw = request(mon, rng)
    if name != "euclidean":
        kw["metric"] = name
    if arg is not None:
        kw["support"] = arg
    if isinstance(arg, np.ndarray) and rng.random() < 0.2:
        # the order of given support values is kept
        kw["support"] = arg = want = rng.permutation(arg)
    if isinstance(arg, list):
        kw["support"] = arg
    if isinstance(arg, tuple) and len(arg) > 1 and rng.random() < 0.1:
        mon.feature("support: from far to near")
        kw["support"], want = (arg[1], arg[0], *arg[2:]), np.linspace(arg[1], arg[0], len(want))
    x = p if rng.random() < 0.9 else ripley.tree_of(p)
    got = mon.call(call, x, **kw)
    judge(mon, got, want, p, d, fn.upper(), 1e-9 * scale + 1e-13 * gen.mag(p), fn, kw.get("linearized", False))


@scenario(SCENARIOS, 700, 20000)
def supplied(mon, rng):
    """distances given as a vector of pairs or as a matrix"""
    p = make(mon, rng)
    n = len(p)
    k_ = int(rng.integers(0, 3))
    if k_ == 0:
        d = squareform(ripley.PAIR_METRICS[int(rng.integers(4))][1](p, p), checks=False).astype(float)
    elif k_ == 1:
        d = rng.integers(0, int(rng.choice([3, 40])), n * (n - 1) // 2)
    else:
        d = rng.random(n * (n - 1) // 2) * gen.spread(p)
    square = rng.random() < 0.5
    given = squareform(d) if square else d
    if square and rng.random() < 0.2:
        # of a matrix that is not symmetric the pairs are those above the diagonal
        mon.feature("given: not symmetric")
        low = np.tril_indices(n, -1)
        given[low] = given[low] * 0.5 if rng.random() < 0.5 else given[low] * 2
    if square and rng.random() < 0.2:
        given = np.asfortranarray(given)
    mon.feature(f"given:{given.ndim}d {given.dtype}")
    scale = float(np.median(d)) or 1.0
    nn = ripley.nearest_other(p, ripley.euclid)
    arg, want = ripley.support(mon, rng, scale, nn.max())
    if rng.random() < 0.3:
        mon.feature("support: ties with distances")
        arg = want = np.unique(rng.choice(d, 5)).astype(float)
    fn, call, kw = request(mon, rng)
    if arg is not None:
        kw["support"] = arg
    got = mon.call(call, p, distances=given, **kw)
    judge(mon, got, want, p, d, fn.upper() + " supplied", 0.0 if isinstance(arg, np.ndarray) else 1e-12 * scale, fn, kw.get("linearized", False))


@scenario(SCENARIOS, 250, 6000)
def another_metric_is_ignored_with_distances(mon, rng):
    p = make(mon, rng)
    d = squareform(ripley.euclid(p, p), checks=False)
    s = np.linspace(0, np.median(d) * 2 or 1, 7) * (1 + 1e-7)
    got = mon.call(k, p, support=s, distances=d, metric="cityblock")
    mon.expect(mon.warned_with(UserWarning, "metric will be ignored"), "warned that the metric is ignored")
    judge(mon, got, s, p, d, "K supplied", 0.0)
    got = mon.call(k, p, support=s, distances=d)
    mon.expect(not mon.warned_with(UserWarning, "metric will be ignored"), "no warning by default")
    got = mon.call(k, p, support=s, distances=squareform(d), metric="precomputed")
    judge(mon, got, s, p, d, "K precomputed", 0.0)


@scenario(SCENARIOS, 350, 9000)
def invariances(mon, rng):
    """order, shift and scale; L follows from K; all pairs are reached"""
    p = make(mon, rng, 3)
    d = ripley.euclid(p, p)[np.triu_indices(len(p), 1)]
    u = np.unique(d)
    u = u[np.r_[True, np.diff(u) > 1e-6 * u.max()]]
    # between the distances that occur: nothing is close to a support value
    s = (u[1:] + u[:-1]) / 2
    if len(s) == 0:
        raise Skip
    s = s[np.sort(rng.choice(len(s), min(len(s), 12), replace=False))]
    gap = float(np.diff(u).min())
    if gap < 1e-9 * gen.mag(p):
        raise Skip
    s = np.r_[s, u[-1] * 1.5]
    v = np.asarray(mon.call(k, p, support=s)[1])
    want = np.array([(d < x).sum() for x in s]) * 2 * area(p) / len(p) ** 2
    mon.close(v, want, "K: pairs closer than each support value", rtol=1e-9)
    mon.close(v[-1], area(p) * (len(p) - 1) / len(p), "K: all pairs beyond the largest distance", rtol=1e-9)
    q = p[rng.permutation(len(p))]
    mon.close(mon.call(k, q, support=s)[1], v, "K: order of the events does not matter", rtol=1e-9)
    f = float(2.0 ** rng.integers(-3, 4))
    mon.close(mon.call(k, p * f, support=s * f)[1], v * f * f, "K: scale", rtol=1e-9)
    t = p + rng.integers(-8, 8, 2) * gen.spread(p)
    mon.close(mon.call(k, t, support=s)[1], v, "K: shift", rtol=1e-6)
    a, b = mon.call(l, p, support=s)
    mon.close(b, np.sqrt(v / np.pi), "L: root of K over pi", rtol=1e-9)
    a, b = mon.call(l, p, support=s, linearized=True)
    mon.close(b, np.sqrt(v / np.pi) - s, "L: linearised", rtol=1e-9, atol=1e-9 * s.max())
