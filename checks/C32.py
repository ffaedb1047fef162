"""The same calls made alone, from several threads at once (with the interpreter switching
between them as often as possible), within a callable metric, and in other processes with
another hash seed, directory and history: equal results. The settings of the process are
recorded before and after every call."""

import contextlib
import gc
import io
import locale
import multiprocessing
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

import folium  # noqa: F401 - imported before anything is observed
import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import pointpats
import statsmodels.api  # noqa: F401
from KDEpy import FFTKDE  # noqa: F401
from pointpats import distance_statistics as ds

from checks import C30
from pv.core import REPO, ROOT, Skip, scenario
from pv.freeze import leaves, same_leaves

FILES = C30.FILES
ASSUMPTIONS = [
    "functions drawing from the global random generator are not compared between threads",
    "figures are not drawn from several threads (the plotting library does not support it)",
    "values are compared to a relative 1e-6 of the largest one",
]
SCENARIOS = []


# --- calls that any thread may make -----------------------------------------
def quadrats(rng, W):
    x = C30.any_events(rng, W, "a", "list", "gs", "mp", "pp")
    seed = int(rng.integers(99))
    R = int(rng.choice([0, 3]))
    if rng.random() < 0.5:
        kw = dict(shape="rectangle", nx=int(rng.integers(1, 5)), ny=3)
    else:
        kw = dict(shape="hexagon", lh=W["top"] / 3)

    def test():
        q = pointpats.QStatistic(x, realizations=R, rng=seed, **kw)
        return [q.chi2, q.chi2_pvalue, q.df, q.chi2_contrib, q.cell_ids, q.mr.point_location_sta(), getattr(q, "chi2_realizations", None)]

    test.__qualname__ = "QStatistic"
    return test, (), {}, True


def descriptors(rng, W):
    q = C30.any_events(rng, W, "pp", "marked")
    fresh = rng.random() < 0.5
    src = q.df.copy()

    def read():
        p = pointpats.PointPattern(src, coord_names=list(q.coord_names), names=list(src.columns)) if fresh else q
        names = ("n", "mbb", "mbb_area", "rot", "hull", "hull_area", "lambda_mbb", "lambda_hull", "lambda_window", "nnd", "min_nnd", "mean_nnd", "max_nnd")
        return [np.array(getattr(p, x)) for x in names]

    read.__qualname__ = "PointPattern descriptors"
    return read, (), {}, True


def pattern(rng, W):
    while True:
        fn, args, kw, det = C30.pattern(rng, W)
        if det and getattr(fn, "__name__", "") != "read":
            return fn, args, kw, det


def spacetime(rng, W):
    while True:
        fn, args, kw, det = C30.spacetime(rng, W)
        kw = dict(kw, permutations=0)
        kw.pop("keep", None)
        return fn, args, kw, det


def hotspots(rng, W):
    if not len(W["knox_local"].adjlist):
        raise Skip
    kw = dict(crit=float(rng.choice([0.05, 0.3, 0.8])), inference=str(rng.choice(["permutation", "analytic"])), keep_neighbors=bool(rng.random() < 0.5))
    return W["knox_local"].hotspots, (), kw, True


PURE = {
    "centrography": (C30.centrography, 5), "shapes": (C30.shapes, 3), "ripley": (C30.ripley, 5), "simulate": (C30.simulate, 4), "construct": (C30.construct, 1),
    "derived": (C30.derived, 1), "pattern": (pattern, 3), "descriptors": (descriptors, 2), "windows": (C30.windows, 1), "quadrats": (quadrats, 3),
    "spacetime": (spacetime, 3), "hotspots": (hotspots, 1),
}
GLOBAL = {"spacetime": (C30.spacetime, 3), "process": (C30.process, 1)}


def requests(rng, W, m, catalogue):
    names = list(catalogue)
    w = np.array([catalogue[k][1] for k in names], float)
    out = []
    while len(out) < m:
        name = names[int(rng.choice(len(names), p=w / w.sum()))]
        try:
            fn, args, kw, det = catalogue[name][0](rng, W)
        except Skip:
            continue
        if det:
            out.append((name + ":" + getattr(fn, "__qualname__", str(fn)).split(".<locals>.")[-1], fn, args, kw))
    return out


@contextlib.contextmanager
def busy_switching(interval):
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        yield
    finally:
        sys.setswitchinterval(old)


@scenario(SCENARIOS, 40, 1500)
def threads(mon, rng):
    W = C30.world(mon, rng)
    calls = requests(rng, W, int(rng.integers(6, 14)), PURE)
    for name, *_ in calls:
        mon.feature("thread call:" + name)
    want = [leaves(mon.call(fn, *a, **kw)) for _, fn, a, kw in calls]
    k = int(rng.choice([2, 4, 8]))
    orders = [rng.permutation(len(calls)) for _ in range(k)]
    if rng.random() < 0.3:
        # all of them the same at the same time
        orders = [orders[0]] * k
        mon.feature("in step")
    got, log = [[] for _ in range(k)], []
    start = threading.Barrier(k)

    def work(j):
        start.wait()
        for i in orders[j]:
            _, fn, a, kw = calls[i]
            log.append((j, 1))
            try:
                r = leaves(fn(*a, **kw))
            except Exception as e:  # noqa: BLE001
                r = ["raised " + repr(e)]
            log.append((j, -1))
            got[j].append((int(i), r))

    with warnings.catch_warnings():
        # (filters are shared by all threads, so that some warnings come through)
        warnings.simplefilter("ignore")
        warnings.showwarning = lambda *a, **k: None
        with busy_switching(1e-6 if rng.random() < 0.7 else 1e-4):
            ts = [threading.Thread(target=work, args=(j,)) for j in range(k)]
            [t.start() for t in ts]
            [t.join() for t in ts]
    depth = top = 0
    for _, d in log:
        depth += d
        top = max(top, depth)
    mon.feature(f"threads:{k}", f"calls under way at once:{top}")
    mon.fp(str(log))
    for j in range(k):
        mon.expect(len(got[j]) == len(calls), "every call of every thread returned", got=len(got[j]))
        for i, r in got[j]:
            d = same_leaves(want[i], r)
            mon.expect(d is None, "calls from several threads give the results they give alone", call=calls[i][0], args=calls[i][2], kwargs=calls[i][3], difference=d, threads=k)


@scenario(SCENARIOS, 40, 1500)
def within_metrics(mon, rng):
    """calls made by a metric that another call uses"""
    W = C30.world(mon, rng)
    inner = requests(rng, W, 3, {k: PURE[k] for k in ("centrography", "shapes", "ripley", "simulate", "pattern")})
    want = [leaves(mon.call(fn, *a, **kw)) for _, fn, a, kw in inner]
    seen = []
    when = int(rng.integers(1, 25))
    count = [0]

    def metric(u, v):
        count[0] += 1
        if count[0] % when == 0 and len(seen) < 6:
            i = len(seen) % len(inner)
            _, fn, a, kw = inner[i]
            seen.append((i, leaves(fn(*a, **kw))))
        return float(np.hypot(*(np.asarray(u) - np.asarray(v))))

    def plain(u, v):
        return float(np.hypot(*(np.asarray(u) - np.asarray(v))))

    kind = "gkl"[int(rng.integers(3))]
    s = W["support_array"]
    res = mon.call(getattr(ds, kind), W["p"], support=s, metric=metric)
    ref = mon.call(getattr(ds, kind), W["p"], support=s, metric=plain)
    mon.feature("outer:" + kind, f"inner calls:{len(seen)}")
    mon.expect(same_leaves(leaves(ref), leaves(res)) is None, "a call is not disturbed by calls its metric makes", kind=kind, difference=same_leaves(leaves(ref), leaves(res)))
    for i, r in seen:
        d = same_leaves(want[i], r)
        mon.expect(d is None, "calls made by a metric give the results they give alone", call=inner[i][0], difference=d)


def drawn(seed, m):
    """a pool of objects and calls over it, with their results (here or in another process)"""
    rng = np.random.default_rng(seed)

    class Quiet:
        def feature(self, *a):
            pass

        fp = feature

    while True:
        # (the local statistic in the pool is made with the global state)
        np.random.seed(seed % 2**32)
        try:
            W = C30.world(Quiet(), rng)
            break
        except Skip:
            continue
    return rng, requests(rng, W, m, PURE) + requests(rng, W, m // 4, GLOBAL)


def answers(seed, m, backwards=False):
    _, calls = drawn(seed, m)
    out = [None] * len(calls)
    for i in reversed(range(len(calls))) if backwards else range(len(calls)):
        name, fn, a, kw = calls[i]
        np.random.seed(1000 + i)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            out[i] = (name, leaves(fn(*a, **kw)))
    return out


@scenario(SCENARIOS, 8, 60)
def processes(mon, rng):
    """another process, hash seed, working directory and order of calls"""
    seed, m = int(rng.integers(2**31)), 60
    here = mon.call(answers, seed, m)
    d = tempfile.mkdtemp()
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(rng.integers(1, 2**32 - 1)), TZ=str(rng.choice(["UTC", "Asia/Tokyo", "America/Lima"])), PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        code = f"import sys; sys.path[:0] = [{ROOT!r}, {REPO!r}]\nimport pickle\nfrom checks.C32 import answers\nr = answers({seed}, {m}, True)\npickle.dump(r, open({os.path.join(d, 'out')!r}, 'wb'))"
        r = subprocess.run([sys.executable, "-c", code], cwd=d, env=env, capture_output=True, text=True, timeout=600)
        mon.expect(r.returncode == 0, "the other process finished", stderr=r.stderr[-600:])
        with open(os.path.join(d, "out"), "rb") as f:
            there = pickle.load(f)
        left = sorted(set(os.listdir(d)) - {"out"})
    finally:
        shutil.rmtree(d)
    mon.expect(left == [], "nothing is written to the working directory", got=left)
    mon.expect(len(here) == len(there), "as many results", got=len(there), want=len(here))
    for (name, a), (other, b) in zip(here, there, strict=True):
        mon.feature("process call:" + name)
        df = same_leaves(a, b)
        mon.expect(name == other and df is None, "calls give the same results in another process", call=name, difference=df)


# --- settings of the process ------------------------------------------------
def settings():
    return {
        "numerical errors": tuple(sorted(np.geterr().items())),
        "error callback": np.geterrcall(),
        "warning filters": list(warnings.filters),
        "print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "plot settings": dict(mpl.rcParams),
        "plot backend": mpl.get_backend(),
        "frame options": tuple(pd.get_option(k) for k in ("display.max_rows", "display.precision", "mode.chained_assignment", "mode.copy_on_write", "display.max_columns", "compute.use_numexpr")),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "module path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "global random state of Python": random.getstate(),
        "locale": locale.setlocale(locale.LC_ALL),
        "garbage collection": gc.isenabled(),
        "signal handlers": tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)),
        "threads": {t.name for t in threading.enumerate()},
        "trace": (sys.gettrace(), sys.getprofile()),
    }


def files():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            out.add((f, os.readlink("/proc/self/fd/" + f)))
    # (libraries keep fonts and the like open)
    return {(f, t) for f, t in out if t.startswith("/") and not t.startswith(("/proc", "/dev", "/usr", "/opt", "/etc", sys.prefix, sys.base_prefix))}


def observed(mon, fn, *args, draws=False, plots=False, **kw):
    """a call, with the settings before and after it"""
    seen = {}

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            seen["before"] = settings(), np.random.get_state(legacy=False), plt.get_fignums(), files()
            out = fn(*args, **kw)
            seen["after"] = settings(), np.random.get_state(legacy=False), plt.get_fignums(), files()
        return out

    run.__qualname__ = getattr(fn, "__qualname__", str(fn))
    out = mon.call(run)
    (a, ra, fa, da), (b, rb, fb, db) = seen["before"], seen["after"]
    for k in a:
        mon.expect(a[k] == b[k], "no call changes the settings of the process: " + k, call=run.__qualname__, before=str(a[k])[:200], after=str(b[k])[:200])
    if not draws:
        same = repr(ra) == repr(rb)
        mon.expect(same, "the global random state is left alone", call=run.__qualname__)
    if not plots:
        mon.expect(fa == fb, "no figure is left behind", call=run.__qualname__, before=fa, after=fb)
    mon.expect(db <= da, "no file is left open", call=run.__qualname__, new=sorted(db - da))
    return out


# before any call: what must still be so after all of them
LASTING = ("print options", "frame options", "plot backend", "recursion limit", "locale", "error callback", "signal handlers", "trace")
START = {k: v for k, v in settings().items() if k in LASTING}


@scenario(SCENARIOS, 120, 4000)
def process_state(mon, rng):
    W = C30.world(mon, rng)
    now = settings()
    for k in LASTING:
        mon.expect(START[k] == now[k], "no call changes the settings of the process: " + k, call="(any so far)", before=str(START[k])[:200], after=str(now[k])[:200])
    with np.errstate(**{k: str(rng.choice(["warn", "ignore"])) for k in ("divide", "over", "under", "invalid")}):
        for name, fn, a, kw in requests(rng, W, 8, PURE):
            mon.feature("state:" + name)
            observed(mon, fn, *a, **kw)
        for name in rng.permutation(["spacetime", "process", "ripley_test", "hotspots", "density", "quadrats", "pattern"])[:3]:
            name = str(name)
            try:
                fn, a, kw, _ = C30.CATALOGUE[name][0](rng, W)
            except Skip:
                continue
            mon.feature("state:" + name)
            observed(mon, fn, *a, draws=name in ("spacetime", "process"), plots=name in ("hotspots", "density", "quadrats", "pattern"), **kw)
            plt.close("all")


@scenario(SCENARIOS, 25, 600)
def files_are_closed(mon, rng):
    from checks.C25 import write

    n = int(rng.integers(1, 20))
    d = tempfile.mkdtemp()
    try:
        path = write(rng, d, "e", rng.random((n, 2)), {"T": [int(v) for v in rng.integers(0, 99, n)]}, [("N", 9, 0)])
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always", ResourceWarning)
            e = observed(mon, pointpats.SpaceTimeEvents, path, "T", bool(rng.random() < 0.5))
            seen += mon.last_warnings
            gc.collect()
        seen = [str(w.message) for w in seen if issubclass(w.category, ResourceWarning) and d in str(w.message)]
        mon.expect(seen == [], "the files are closed, not dropped", got=seen)
        mon.expect(e.n == n, "events read")
        left = sorted(os.listdir(d))
    finally:
        shutil.rmtree(d)
    mon.expect(left == ["e.dbf", "e.shp", "e.shx"], "reading writes nothing", got=left)


@scenario(SCENARIOS, 60, 2000)
def history(mon, rng):
    """results do not depend on calls made before, however many and on which objects"""
    W = C30.world(mon, rng)
    calls = requests(rng, W, 5, PURE)
    want = [leaves(mon.call(fn, *a, **kw)) for _, fn, a, kw in calls]
    V = C30.world(mon, rng)
    for _, fn, a, kw in requests(rng, V, 10, PURE):
        mon.call(fn, *a, **kw)
    # random state and numerical settings of the caller
    np.random.seed(int(rng.integers(2**32)))
    random.seed(int(rng.integers(2**32)))
    with np.errstate(all="ignore"):
        for i in rng.permutation(len(calls)):
            name, fn, a, kw = calls[i]
            d = same_leaves(want[i], leaves(mon.call(fn, *a, **kw)))
            mon.expect(d is None, "results do not depend on earlier calls", call=name, difference=d)


@scenario(SCENARIOS, 400, 8000)
def changed_arrays(mon, rng):
    """the caller changes the same arrays in place and asks again"""
    n = int(rng.choice([5, 12, 40, 90, 300, 1200], p=[0.2, 0.2, 0.2, 0.2, 0.1, 0.1]))
    seed = int(rng.integers(2**31))
    plain = lambda rng, a: np.array(a)  # noqa: E731
    first = C30.array_requests(mon, rng, n, plain)
    second = None
    while second is None:
        with contextlib.suppress(Skip):
            second = C30.array_requests(mon, rng, n, plain)
    slow = {pointpats.jacquez, pointpats.mantel, pointpats.modified_knox, pointpats.Knox, pointpats.knox} if n > 300 else set()
    index = [i for i in range(len(first)) if first[i][0] not in slow]
    for i in rng.choice(index, 3, replace=False):
        fn, a, kw = first[i]
        # (arrays of its own, as other requests share them)
        a = tuple(np.array(v) if isinstance(v, np.ndarray) else v for v in a)
        kw = {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}
        _, b, kwb = second[i]
        name = getattr(fn, "__qualname__", str(fn))
        mon.feature("changed:" + name)

        def run(*args, **k):
            np.random.seed(seed % 2**32)
            with contextlib.redirect_stdout(io.StringIO()):
                return leaves(fn(*args, **k))

        run.__qualname__ = name
        want = mon.call(run, *b, **kwb)
        one = leaves(mon.call(run, *a, **kw))
        # the same array objects with the values of the second request
        a2 = []
        for u, v in zip((*a, *kw.values()), (*b, *kwb.values()), strict=True):
            if isinstance(u, np.ndarray):
                if u.dtype != v.dtype:
                    raise Skip
                u[...] = v
                a2.append(u)
            else:
                a2.append(v)
        again = mon.call(run, *a2[: len(a)], **dict(zip(kw, a2[len(a):], strict=True)))
        d = same_leaves(want, again)
        mon.expect(d is None, "results follow the current contents of the arguments", call=name, difference=d)
        del one


@scenario(SCENARIOS, 40, 1000)
def threads_of_processes(mon, rng):
    """the legacy processes draw from the common state: what they promise still holds"""
    k = int(rng.choice([2, 4, 8]))
    jobs = []
    for _ in range(k):
        c, big = rng.uniform(-50, 50, 2), float(rng.uniform(20, 80))
        w = pointpats.as_window(pointpats.poly_from_bbox([*(c - big), *(c + big)]))
        jobs.append((w, c, big, float(big * 10 ** rng.uniform(-2, -1)), int(rng.integers(3, 40)), int(rng.integers(1, 4)), bool(rng.random() < 0.5), bool(rng.random() < 0.5)))
    mon.fp([(*c, *o) for _, c, *o in jobs])
    got = [[] for _ in range(k)]
    start = threading.Barrier(k)

    def work(j):
        w, c, big, r, n, samples, cluster, as_pp = jobs[j]
        start.wait()
        for _ in range(6):
            try:
                if cluster:
                    o = pointpats.PoissonClusterPointProcess(w, n, 1, r, samples, keep=False, asPP=as_pp)
                else:
                    o = pointpats.PoissonPointProcess(w, n, samples, asPP=as_pp)
                got[j].append([np.asarray(q.points if as_pp else q, float) for q in o.realizations.values()])
            except Exception as e:  # noqa: BLE001
                got[j].append(repr(e))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warnings.showwarning = lambda *a, **k: None
        with busy_switching(1e-6):
            ts = [threading.Thread(target=work, args=(j,)) for j in range(k)]
            [t.start() for t in ts]
            [t.join() for t in ts]
    mon.events.append(("call", f"{k} threads of legacy processes"))
    for j, (w, c, big, r, n, samples, cluster, as_pp) in enumerate(jobs):
        mon.expect(len(got[j]) == 6 and not any(isinstance(o, str) for o in got[j]), "every call of every thread returned", got=[o for o in got[j] if isinstance(o, str)])
        for o in got[j]:
            mon.expect(len(o) == samples and all(q.shape == (n, 2) for q in o), "as many realizations and events as asked for", got=[q.shape for q in o], want=(samples, n))
            for q in o:
                mon.expect((np.abs(q - c) <= big * (1 + 1e-9)).all(), "events lie in the window of their own process", got=q, centre=c, half=big)
                if cluster and np.abs(q - c).max() < big - 2.1 * r:
                    # (one parent, nothing cut off: all within the radius of it)
                    mon.feature("uncut cluster")
                    mon.expect(np.hypot(*(q[:, None] - q[None]).T).max() <= 2 * r * (1 + 1e-9), "offspring lie within the radius of their own process", got=q, radius=r)


def draw_unseeded(i):
    from pointpats import random as rnd

    box = np.array([0.0, 0.0, 10.0, 10.0])
    p = np.random.default_rng(1).random((20, 2)) * 10
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t = ds.k_test(p, support=np.array([1.0, 2.0, 4.0]), n_simulations=12, n_jobs=1, keep_simulations=True)
        q = [pointpats.QStatistic(p, nx=4, ny=4, realizations=12).chi2_realizations for _ in range(2)]
    return {
        "poisson": rnd.poisson(box, size=3), "normal": rnd.normal(box, size=3), "cluster_poisson": rnd.cluster_poisson(box, size=6, cluster_radius=1.0),
        "cluster_normal": rnd.cluster_normal(box, size=6), "strauss": rnd.strauss(box, size=5, r=0.1, n_iter=20, max_iter=100), "k_test": np.asarray(t.simulations),
        "QStatistic": np.array(q),
    }


@scenario(SCENARIOS, 4, 40)
def children(mon, rng):
    """unseeded draws of forked processes, which share everything up to the fork"""
    draw_unseeded(0)
    k = int(rng.choice([3, 6]))
    mon.fp(k)
    with multiprocessing.get_context("fork").Pool(k) as pool:
        out = mon.call(pool.map, draw_unseeded, range(k), 1)
    out.append(draw_unseeded(0))
    for name in out[0]:
        mon.feature("children:" + name)
        seen = {o[name].tobytes() for o in out}
        mon.expect(len(seen) == k + 1, "unseeded draws of several processes differ", call=name, processes=k + 1, different=len(seen))
