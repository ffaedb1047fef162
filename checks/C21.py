"""Event sets with ties, coincident events and times, and thresholds on, between and
beyond their distances; exhaustive pair counts, exact permutation distributions for few
events, reference permutations for many."""

import numpy as np
import pandas as pd
from pointpats import Knox
from scipy import stats

from checks import st
from pv import gen
from pv.core import scenario

FILES = ["spacetime.py"]
ASSUMPTIONS = [
    "statistical verdicts are given at error rates of 1e-12 per comparison",
    "thresholds are whole numbers hit exactly or lie at least 1e-10 of the extent from any distance",
]
SCENARIOS = []


def tables(mon, k, cs, ct, prefix="global"):
    n = len(cs)
    pairs = n * (n - 1) / 2
    ns, nt, nst = cs.sum() / 2, ct.sum() / 2, (cs & ct).sum() / 2
    mon.expect(k.nst == nst and isinstance(k.nst, (int, np.integer)), prefix + " statistic: close pairs", got=k.nst, want=nst)
    mon.close(k.observed, [[nst, ns - nst], [nt - nst, pairs - ns - nt + nst]], prefix + " observed table", rtol=0)
    e = ns * nt / pairs
    mon.close(k.expected, [[e, ns - e], [nt - e, pairs - ns - nt + e]], prefix + " expected table", rtol=1e-9, atol=1e-9)
    # the probability of more close pairs than observed
    i = np.arange(int(nst) + 1)
    below = np.exp(stats.poisson.logpmf(i, e)).sum() if e > 0 else 1.0
    mon.close(k.p_poisson, max(0.0, 1 - below), prefix + " Poisson p-value", rtol=1e-7, atol=1e-10)
    return nst, e


def crowds(mon, rng):
    """many events at few places and moments, thresholds hardly below or above their distances"""
    n = int(rng.choice([150, 300]))
    sites, moments = rng.integers(0, 40, (int(rng.integers(2, 9)), 2)), rng.integers(0, 60, int(rng.integers(2, 9)))
    s, t = sites[rng.integers(0, len(sites), n)].astype(float), moments[rng.integers(0, len(moments), n)].reshape(-1, 1).astype(float)
    ds, dt = st.distances(s), st.time_distances(t)
    off = 1 + rng.choice([-1, 1, -1], 2) * 10.0 ** -rng.integers(2, 8, 2)
    delta, tau = float(rng.choice(np.unique(ds))) * off[0], float(rng.choice(np.unique(dt))) * off[1]
    mon.feature("crowds")
    mon.fp(s)
    mon.fp(t)
    return s, t, float(delta), float(tau), st.close(ds, delta, False), st.close(dt, tau, False)


@scenario(SCENARIOS, 600, 20000)
def counts(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([2, 3, 4, 6, 10, 20, 45, 80], p=[0.08, 0.08, 0.12, 0.14, 0.2, 0.2, 0.1, 0.08]), 400, 0.0)
    if mon.index % 40 == 11:
        n = int(rng.choice([150, 400]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n, None if n < 150 or rng.random() < 0.3 else (2, 3))
    if mon.index % 40 == 31:
        s, t, delta, tau, cs, ct = crowds(mon, rng)
        n = len(s)
    form = int(rng.integers(0, 5))
    mon.feature(f"form:{form}")
    a, b = st.arrays(rng, s, t)
    if form == 0:
        ix = rng.permutation(n) + 3
        a, b = pd.DataFrame(s, columns=["X", "Y"], index=ix), pd.DataFrame(t, columns=["T"], index=ix)
    R = int(rng.choice([0, 0, 1, 9, 19]))
    if n > 20:
        R = min(R, 1)
    keep = bool(rng.random() < 0.5)
    if form == 4:
        df, tc = st.frame(rng, s, t)
        if rng.random() < 0.5:
            k = mon.call(Knox.from_dataframe, df, tc, delta, tau, R, keep)
        else:
            k = mon.call(Knox.from_dataframe, dataframe=df, time_col=tc, delta=delta, tau=tau, permutations=R, keep=keep)
    elif R == 0 and form == 1:
        k = mon.call(Knox, a, b, delta, tau, 0, keep)
    else:
        k = mon.call(Knox, a, b, delta=delta, tau=tau, permutations=R, keep=keep)
    nst, e = tables(mon, k, cs, ct)
    mon.expect(k.statistic_ == k.nst, "statistic_ is the count")
    mon.expect(k.delta == delta and k.tau == tau and k.permutations == R and k.keep == keep, "settings are kept")
    mon.expect(k.s_coords is a and k.t_coords is b or np.array_equal(np.asarray(k.s_coords), s) and np.array_equal(np.asarray(k.t_coords), t), "events are kept")
    mon.expect(hasattr(k, "p_sim") == (R > 0), "simulated p-value exactly with permutations", R=R)
    mon.expect(hasattr(k, "sim") == (R > 0 and keep), "stored statistics exactly on request", R=R, keep=keep)
    if R:
        ex = k.p_sim * (R + 1) - 1
        mon.expect(abs(ex - round(ex)) < 1e-8 and -1e-8 < ex < R + 1e-8, "simulated p-value is a share of permutations", p=k.p_sim, R=R)
        if keep:
            mon.expect(np.shape(k.sim) == (R,), "one stored statistic per permutation", got=np.shape(k.sim))
            mon.close(k.p_sim, (1 + (np.asarray(k.sim) >= nst).sum()) / (R + 1), "simulated p-value")
            top = min(cs.sum(), ct.sum()) / 2
            mon.expect(((k.sim >= 0) & (k.sim <= top) & (k.sim == np.round(k.sim))).all(), "stored statistics are counts", got=k.sim)


@scenario(SCENARIOS, 120, 4000)
def few_events(mon, rng):
    n = int(rng.choice([3, 4, 5, 6], p=[0.1, 0.3, 0.4, 0.2]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    R = int(rng.choice([99, 200, 400, 1200]))
    if rng.random() < 0.3:
        df, tc = st.frame(rng, s, t)
        k = mon.call(Knox.from_dataframe, df, tc, delta, tau, permutations=R, keep=True)
    else:
        k = mon.call(Knox, s, t, delta, tau, permutations=R, keep=True)
    nst, _ = tables(mon, k, cs, ct)
    d = st.exact_distribution(cs, ct)
    mon.feature(f"values:{len(d)}")
    mon.expect(k.sim.shape == (R,), "one stored statistic per permutation")
    for v in set(d) | set(k.sim.astype(int)):
        c = int((k.sim == v).sum())
        mon.expect(st.binomial_ok(c, R, d.get(v, 0.0)), "distribution of reassigned times", value=v, count=c, R=R, p=d.get(v, 0.0))
    mon.close(k.p_sim, (1 + (k.sim >= nst).sum()) / (R + 1), "simulated p-value")
    st.drawn_anew(mon, k.sim, sum(v * v for v in d.values()), "permutations are drawn anew")
    if len(d) > 1 and R >= 200 and max(d.values()) < 0.6:
        # permutations are drawn anew each time
        runs = 1 + int((np.diff(k.sim) != 0).sum())
        mon.expect(runs > 5, "permutations vary", sim=k.sim)


@scenario(SCENARIOS, 40, 1500)
def unkept(mon, rng):
    """the p-value without stored statistics follows the exact tail probability"""
    n = int(rng.choice([4, 5, 6]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    R = int(rng.choice([199, 499, 999]))
    k = mon.call(Knox, s, t, delta, tau, permutations=R) if R != 99 else None
    nst, _ = tables(mon, k, cs, ct)
    p = sum(v for x, v in st.exact_distribution(cs, ct).items() if x >= nst)
    c = int(round(k.p_sim * (R + 1) - 1))
    mon.expect(st.binomial_ok(c, R, min(p, 1.0) if p < 1 - 1e-12 else 1.0), "simulated p-value follows the tail", count=c, R=R, p=p)


@scenario(SCENARIOS, 40, 1200)
def many_events(mon, rng):
    n = (10, 15, 25, 40)[mon.index % 4]
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    if cs.sum() / 2 > 150:
        delta = 0.0
        cs = st.close(st.distances(s), delta, False)
    R = int(rng.choice([99, 199])) if n > 20 else int(rng.choice([199, 399, 999]))
    default = rng.random() < 0.3
    k = mon.call(Knox, s, t, delta, tau, keep=True) if default else mon.call(Knox, s, t, delta, tau, R, True)
    if default:
        R = 99
    nst, e = tables(mon, k, cs, ct)
    mon.expect(k.sim.shape == (R,), "one stored statistic per permutation", got=k.sim.shape)
    mon.close(k.p_sim, (1 + (k.sim >= nst).sum()) / (R + 1), "simulated p-value")
    ref = st.permuted(rng, cs, ct, 1000)
    if np.ptp(ref) == 0 and np.ptp(k.sim) == 0:
        mon.expect(ref[0] == k.sim[0], "distribution of reassigned times: constant", got=k.sim[0], want=ref[0])
        return
    for v in np.unique(np.quantile(ref, [0, 0.1, 0.25, 0.5, 0.75, 0.9, 1])):
        a, b = int((k.sim >= v).sum()), int((ref >= v).sum())
        mon.expect(st.two_proportions_ok(a, R, b, len(ref)), "distribution of reassigned times", at=v, got=a / R, want=b / len(ref))
    st.drawn_anew(mon, k.sim, st.chance_of_equal(ref), "permutations are drawn anew")
    sd = ref.std() / np.sqrt(R)
    mon.expect(abs(k.sim.mean() - e) <= 8 * sd + 1e-9, "mean of reassigned times is the expectation", got=k.sim.mean(), want=e, sd=sd)
