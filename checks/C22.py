"""Event sets with ties and coincidences, thresholds on and between distances, with and
without identifiers; exhaustive neighbour counts, exact hypergeometric conditional
distributions and p-values computed by direct summation."""

import math

import numpy as np
from pointpats import Knox, KnoxLocal

from checks import st
from checks.C21 import tables
from pv import gen
from pv.core import scenario

FILES = ["spacetime.py"]
ASSUMPTIONS = ["statistical verdicts are given at error rates of 1e-12 per comparison"]
SCENARIOS = []


def hyper_pmf(k, total, good, drawn):
    if k < 0 or k > drawn or k > good or drawn - k > total - good:
        return 0.0
    return math.comb(good, k) * math.comb(total - good, drawn - k) / math.comb(total, drawn)


def analytic(cs, ct):
    n = len(cs)
    ns, nt, nst = cs.sum(1), ct.sum(1), (cs & ct).sum(1)
    if n > 100:
        # (grouped, in logarithms)
        lf = np.cumsum(np.r_[0.0, np.log(np.arange(1, n + 1))])
        good, share = np.unique(nt, return_counts=True)
        out = []
        for i in range(n):
            k, g = np.arange(int(nst[i]))[:, None], good[None].astype(int)
            a, b = int(ns[i]), n - 1
            fits = (k <= g) & (a - k <= b - g)
            r = np.where(fits, a - k, 0)
            lp = lf[g] - lf[np.where(fits, k, 0)] - lf[np.where(fits, g - k, 0)] + lf[b - g] - lf[r] - lf[np.where(fits, b - g - r, 0)] - lf[b] + lf[a] + lf[b - a]
            out.append(1 - (np.where(fits, np.exp(lp), 0).sum(axis=0) * share).sum() / n)
        return np.array(out)
    return np.array([
        1 - np.mean([sum(hyper_pmf(k, n - 1, int(nt[j]), int(ns[i])) for k in range(int(nst[i]))) for j in range(n)])
        for i in range(n)
    ])


def ids_for(mon, rng, n):
    k = int(rng.integers(0, 5))
    mon.feature(f"ids:{k}")
    if k == 0:
        return None
    if k == 1:
        return rng.permutation(n)
    if k == 2:
        return [f"e{i}" for i in rng.permutation(n)]
    if k == 3:
        return np.arange(n) * 10 + 1
    return list(np.arange(n)[::-1] - 3)


def local(mon, k, cs, ct, R, keep):
    n = len(cs)
    nst, _ = tables(mon, k, cs, ct, "global part")
    nsti = (cs & ct).sum(1)
    mon.expect(np.shape(k.nsti) == (n,) and (k.nsti == nsti).all(), "local statistics", got=k.nsti, want=nsti)
    mon.expect((np.asarray(k.statistic_) == nsti).all(), "statistic_ is local")
    mon.expect(np.sum(k.nsti) == 2 * nst, "local statistics add up to twice the global one")
    mon.close(k.p_hypergeom, analytic(cs, ct), "analytic local p-values", rtol=1e-8, atol=1e-10)
    mon.expect(hasattr(k, "p_sim") == (R > 0) and hasattr(k, "p_sims") == (R > 0), "simulated p-values exactly with permutations")
    mon.expect(hasattr(k, "sim") == (R > 0 and keep) and hasattr(k, "sims") == (R > 0 and keep), "stored statistics exactly on request")
    if R:
        p = np.asarray(k.p_sims)
        mon.expect(p.shape == (n,), "one simulated p-value per event", got=p.shape)
        ex = p * (R + 1) - 1
        mon.expect((np.abs(ex - ex.round()) < 1e-8).all() and (ex > -1e-8).all() and (ex < R + 1e-8).all(), "local p-values are shares of permutations", p=p, R=R)
        mon.expect((p[nsti == 0] == 1).all(), "p-value of events without neighbours is one", p=p)
        gex = k.p_sim * (R + 1) - 1
        mon.expect(abs(gex - round(gex)) < 1e-8 and -1e-8 < gex < R + 1e-8, "global p-value is a share of permutations")
        if keep:
            mon.expect(np.shape(k.sims) == (n, R), "one stored statistic per event and permutation", got=np.shape(k.sims))
            mon.expect(np.shape(k.sim) == (R,), "one global stored statistic per permutation", got=np.shape(k.sim))
            mon.close(p, (1 + (k.sims >= nsti[:, None]).sum(1)) / (R + 1), "local simulated p-values")
            mon.close(k.p_sim, (1 + (k.sim >= nst).sum()) / (R + 1), "global simulated p-value")
            lim = np.minimum(cs.sum(1), ct.sum(1))[:, None]
            mon.expect(((k.sims >= 0) & (k.sims <= lim) & (k.sims == np.round(k.sims))).all(), "stored local statistics are counts within the margins")
            low = np.maximum(0, cs.sum(1) + ct.sum(1) - (n - 1))[:, None]
            mon.expect((k.sims >= low).all(), "stored local statistics: forced neighbours")
    return nsti


@scenario(SCENARIOS, 350, 12000)
def values(mon, rng):
    n = gen.now_and_then(rng, mon, rng.choice([2, 3, 4, 6, 10, 20, 40], p=[0.08, 0.1, 0.15, 0.17, 0.2, 0.2, 0.1]), 150, 0.0)
    if mon.index % 60 == 13:
        n = 150
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    if n == 150 and mon.index // 60 % 3 == 1:
        # nearly everybody is a neighbour
        mon.feature("dense")
        delta = float(np.quantile(st.distances(s), 0.97)) * 1.0000001
        tau = float(np.quantile(st.time_distances(t), 0.97)) + 1e-3 * (1 + np.ptp(t))
        cs, ct = st.close(st.distances(s), delta, False), st.close(st.time_distances(t), tau, False)
    a, b = st.arrays(rng, s, t)
    R = int(rng.choice([0, 1, 9, 19]))
    if n > 20:
        R = min(R, 1)
    keep = bool(rng.random() < 0.6)
    ids = ids_for(mon, rng, n)
    if rng.random() < 0.25:
        mon.feature("frame")
        df, tc = st.frame(rng, s, t, ids)
        k = mon.call(KnoxLocal.from_dataframe, df, tc, delta, tau, R, keep)
    elif ids is not None:
        k = mon.call(KnoxLocal, a, b, delta, tau, permutations=R, keep=keep, ids=ids)
    else:
        k = mon.call(KnoxLocal, a, b, delta, tau, R, keep)
    local(mon, k, cs, ct, R, keep)
    g = mon.call(Knox, s, t, delta, tau, permutations=0)
    mon.expect(k.nst == g.nst and (k.observed == g.observed).all() and (k.expected == g.expected).all() and k.p_poisson == g.p_poisson, "global parts agree with the global statistic")
    mon.expect(k.delta == delta and k.tau == tau and k.permutations == R and k.keep == keep, "settings are kept")


@scenario(SCENARIOS, 60, 2000)
def conditional(mon, rng):
    n = int(rng.choice([3, 4, 5, 6, 8, 12], p=[0.1, 0.2, 0.2, 0.2, 0.2, 0.1]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    R = int(rng.choice([99, 299, 499]))
    ids = ids_for(mon, rng, n)
    if rng.random() < 0.25:
        df, tc = st.frame(rng, s, t, ids)
        k = mon.call(KnoxLocal.from_dataframe, df, tc, delta, tau, permutations=R, keep=True)
    else:
        k = mon.call(KnoxLocal, s, t, delta, tau, permutations=R, keep=True, ids=ids)
    local(mon, k, cs, ct, R, True)
    ns, nt = cs.sum(1), ct.sum(1)
    for i in range(n):
        for v in range(int(max(k.sims[i].max(), min(ns[i], nt[i]))) + 1):
            p = hyper_pmf(v, n - 1, int(nt[i]), int(ns[i]))
            c = int((k.sims[i] == v).sum())
            mon.expect(st.binomial_ok(c, R, p), "conditional distribution of an event keeping its own time", event=i, value=v, count=c, R=R, p=p)
    free = [i for i in range(n) if 0 < nt[i] < n - 1 and 0 < ns[i] < n - 1]
    mon.feature("free events" if free else "forced")
    for i in free:
        mon.expect(len(np.unique(k.sims[i])) > 1 or R < 200 or hyper_pmf(int(k.sims[i, 0]), n - 1, int(nt[i]), int(ns[i])) > 0.85, "conditional permutations vary", event=i)
    # the neighbours' reassigned times are joint: pairs of events share permutations at most
    if n <= 6:
        d = st.exact_distribution(cs, ct)
        for v in set(d) | set(k.sim.astype(int)):
            c = int((k.sim == v).sum())
            mon.expect(st.binomial_ok(c, R, d.get(v, 0.0)), "global distribution of reassigned times", value=v, count=c, R=R, p=d.get(v, 0.0))


@scenario(SCENARIOS, 30, 900)
def unkept(mon, rng):
    n = int(rng.choice([4, 6, 9]))
    s, t, delta, tau, cs, ct = st.setup(mon, rng, n)
    default = rng.random() < 0.4
    R = 99 if default else int(rng.choice([199, 399]))
    k = mon.call(KnoxLocal, s, t, delta, tau) if default else mon.call(KnoxLocal, s, t, delta, tau, R)
    nsti = local(mon, k, cs, ct, R, False)
    ns, nt = cs.sum(1), ct.sum(1)
    for i in range(n):
        p = sum(hyper_pmf(v, n - 1, int(nt[i]), int(ns[i])) for v in range(int(nsti[i]), int(ns[i]) + 1))
        p = 1.0 if p > 1 - 1e-12 else p
        c = int(round(k.p_sims[i] * (R + 1) - 1))
        mon.expect(st.binomial_ok(c, R, p), "local simulated p-value follows the conditional tail", event=i, count=c, R=R, p=p)
