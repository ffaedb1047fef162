"""Runtime monitor: runs workloads against the real pointpats and watches every call.

A check module defines SCENARIOS = [Scenario(...)]. A scenario is a function
(mon, rng) that drives the real package through mon.call(...) and judges what it
observed with mon.expect(...). Cases are numbered; a case's randomness is derived
from (VERIF_SEED, property, scenario, number) only, so each can be replayed alone.
"""

import hashlib
import importlib
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
import warnings
import zlib
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """the generated case is outside of the property's domain"""


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, setup=None, env=None):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.setup = setup


SCENARIOS = None


def scenario(registry, quick, thorough=None):
    def deco(fn):
        registry.append(Scenario(fn.__name__, fn, quick, thorough))
        return fn

    return deco


def brief(x, limit=160):
    try:
        if isinstance(x, np.ndarray):
            s = f"ndarray{x.shape}{x.dtype}" + (
                np.array2string(x, precision=6, threshold=8).replace("\n", "")
            )
        else:
            s = repr(x)
    except Exception as e:  # noqa: BLE001
        s = f"<unprintable {type(x).__name__}: {e!r}>"
    s = s.replace("\n", " ")
    return s if len(s) <= limit else s[: limit - 3] + "..."


class Mon:
    def __init__(self, prop, tier, known=()):
        self.prop = prop
        self.tier = tier
        self.known_keys = set(known)
        self.calls = Counter()
        self.oracles = Counter()
        self.features = Counter()
        self.warned = Counter()
        self.known_hits = Counter()
        self.fingerprints = set()
        self.nontrivial = 0
        self.evaluations = 0
        self.skipped = 0
        self.samples = []
        self.begin("-", 0)

    # --- per case -------------------------------------------------------
    def begin(self, scenario, index):
        self.scenario = scenario
        self.index = index
        self.events = []
        self.last_warnings = []
        self._fp = hashlib.blake2b(digest_size=8)
        self._fp.update(scenario.encode())
        self._nontrivial = False
        self._expects = 0

    def call(self, fn, *args, **kwargs):
        """an observed call of the target: its events, warnings, outcome"""
        name = getattr(fn, "__qualname__", None) or getattr(
            fn, "__name__", type(fn).__name__
        )
        self.calls[name] += 1
        self.events.append(
            (name, [brief(a) for a in args], {k: brief(v) for k, v in kwargs.items()})
        )
        for a in (*args, *kwargs.values()):
            self.fp(a)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = fn(*args, **kwargs)
        self.last_warnings = w
        for x in w:
            self.warned[x.category.__name__] += 1
        self.events.append(("->", brief(out)))
        return out

    def fp(self, x):
        if isinstance(x, np.ndarray) and x.dtype != object:
            self._fp.update(np.ascontiguousarray(x).tobytes()[:4096])
        else:
            self._fp.update(brief(x, 400).encode())

    def warned_with(self, category, text=""):
        return any(
            issubclass(w.category, category) and text.lower() in str(w.message).lower()
            for w in self.last_warnings
        )

    def refused(self, fn, *args, _types=(Exception,), **kwargs):
        """the call must raise (any of _types)"""
        try:
            out = self.call(fn, *args, **kwargs)
        except _types as e:
            self.events.append(("raised", repr(e)[:200]))
            self.oracle("refused")
            return e
        self.fail(
            f"{getattr(fn, '__qualname__', fn)} accepted an invalid request",
            args=args,
            kwargs=kwargs,
            result=out,
        )

    def oracle(self, name):
        self.oracles[name] += 1

    def expect(self, cond, what, **details):
        self.oracles[what.split(":")[0]] += 1
        self._expects += 1
        self._nontrivial = True
        if not bool(cond):
            self.fail(what, **details)

    def close(self, got, want, what, rtol=1e-9, atol=0.0, **details):
        self.oracles[what.split(":")[0]] += 1
        self._expects += 1
        self._nontrivial = True
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(what + ": shape", got=got, want=want, **details)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            self.fail(what, got=got, want=want, **details)

    def fail(self, what, **details):
        raise Violation(what + "".join(f"\n    {k} = {brief(v, 600)}" for k, v in details.items()))

    def known(self, key, what, **details):
        """a deviation that is a listed known finding, else a violation"""
        if key in self.known_keys:
            self.known_hits[key] += 1
        else:
            self.fail(what, **details)

    def feature(self, *names):
        for n in names:
            self.features[str(n)] += 1

    def end(self):
        self.evaluations += 1
        if self._nontrivial:
            d = self._fp.digest()
            if d not in self.fingerprints:
                self.fingerprints.add(d)
        if len(self.samples) < 400 and self.index < 2:
            self.samples.append(
                dict(
                    scenario=self.scenario,
                    case=self.index,
                    expectations=self._expects,
                    events=[list(map(str, e))[:3] for e in self.events[:6]],
                )
            )

    def report(self):
        return dict(
            calls=self.calls,
            oracles=self.oracles,
            features=self.features,
            warned=self.warned,
            known_hits=self.known_hits,
            fingerprints=self.fingerprints,
            evaluations=self.evaluations,
            skipped=self.skipped,
            samples=self.samples,
        )


def case_rng(seed, prop, scn, i):
    return np.random.default_rng(
        [int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(scn.encode()), i]
    )


CASE_CPU_S = 120.0


_timed_out = [False]


def _on_timeout(signum, frame):
    _timed_out[0] = True
    raise CaseTimeout()


def run_case(mon, scn, seed, i):
    """run one case; returns None or a dict describing the violation"""
    rng = case_rng(seed, mon.prop, scn.name, i)
    np.random.seed(int(rng.integers(2**32)))
    random.seed(int(rng.integers(2**32)))
    mon.begin(scn.name, i)
    signal.signal(signal.SIGVTALRM, _on_timeout)
    _timed_out[0] = False
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    problem = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            scn.fn(mon, rng)
    except Skip:
        mon.skipped += 1
        return None
    except CaseTimeout:
        problem = f"no answer within {CASE_CPU_S:.0f} s of processor time"
    except MemoryError:
        raise
    except Violation as e:
        problem = str(e)
    except Exception as e:  # noqa: BLE001 - anything the target lets escape
        problem = "unexpected outcome: " + "".join(
            traceback.format_exception_only(type(e), e)
        ) + "".join(traceback.format_tb(e.__traceback__)[-4:])
        if _timed_out[0]:
            # (compiled code reports the interruption as an error of its own)
            problem = f"no answer within {CASE_CPU_S:.0f} s of processor time"
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            import matplotlib.pyplot as plt

            plt.close("all")
        except Exception:  # noqa: BLE001
            pass
    if problem is None:
        mon.end()
        return None
    return dict(
        property=mon.prop,
        scenario=scn.name,
        case=i,
        seed=int(seed),
        tier=mon.tier,
        what=problem,
        events=[list(map(str, e)) for e in mon.events[-12:]],
    )


def load_known(prop):
    keys = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf8"):
            line = line.strip()
            if line.startswith("known: "):
                parts = dict(
                    x.split("=", 1) for x in line[7:].split(" ", 2)[:2] if "=" in x
                )
                if parts.get("property") == prop:
                    keys[parts["key"]] = line[7:].split(" ", 2)[2]
    return keys


# --- line observation -----------------------------------------------------
_lines = {}


def observe_lines():
    """which lines of the package the workload has executed (sys.monitoring)"""
    if not hasattr(sys, "monitoring"):
        return
    m = sys.monitoring
    try:
        m.use_tool_id(m.COVERAGE_ID, "pv")
    except ValueError:
        return
    prefix = os.path.join(REPO, "pointpats") + os.sep

    def on_line(code, line):
        f = code.co_filename
        if f.startswith(prefix) and os.sep + "tests" + os.sep not in f:
            _lines.setdefault(f[len(prefix):], set()).add(line)
        return m.DISABLE

    m.register_callback(m.COVERAGE_ID, m.events.LINE, on_line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def worker(prop, module, tier, seed, w, nw, deadline, known, pipe):
    mon = Mon(prop, tier, known)
    found = []
    truncated = 0
    cur = None
    try:
        for scn in module.SCENARIOS:
            n = scn.quick if tier == "quick" else scn.thorough
            for i in range(w, n, nw):
                if time.time() > deadline:
                    truncated += 1
                    break
                cur = (scn.name, i)
                v = run_case(mon, scn, seed, i)
                if v is not None:
                    found.append(v)
                    break  # one per scenario and worker is enough
        msg = dict(ok=True, found=found, truncated=truncated, report=mon.report(), lines=_lines)
    except BaseException as e:  # noqa: BLE001
        msg = dict(ok=False, error=traceback.format_exc(), at=cur, found=found, e=repr(e))
    data = pickle.dumps(msg)
    # (else processes started by the package outlive this one)
    pool = getattr(sys.modules.get("joblib.externals.loky.reusable_executor"), "_executor", None)
    if pool is not None:
        try:
            pool.shutdown(wait=True, kill_workers=True)
        except Exception:  # noqa: BLE001
            pass
    with os.fdopen(pipe, "wb") as f:
        f.write(data)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()

    import pointpats

    here = os.path.realpath(os.path.dirname(pointpats.__file__))
    want = os.path.realpath(os.path.join(REPO, "pointpats"))
    if here != want:
        print(f"error: pointpats comes from {here}, not from {want}")
        return 3
    module = importlib.import_module(f"checks.{prop}")
    known = load_known(prop)

    if len(argv) > 1 and argv[1] == "--replay":
        r = json.load(open(argv[2]))
        scn = next(s for s in module.SCENARIOS if s.name == r["scenario"])
        if hasattr(module, "prepare"):
            module.prepare()
        mon = Mon(prop, r.get("tier", tier), known)
        v = run_case(mon, scn, r["seed"], r["case"])
        print(json.dumps(v, indent=1) if v else "no violation")
        return 1 if v else 0

    if len(argv) > 2 and argv[1] == "--only":
        module.SCENARIOS = [s for s in module.SCENARIOS if s.name in argv[2].split(",")]

    if hasattr(module, "prepare"):
        module.prepare()
    observe_lines()
    nw = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("VERIF_BUDGET_S", "0")) or (
        150.0 if tier == "quick" else 780.0
    )
    deadline = t0 + budget
    sys.stdout.flush()
    sys.stderr.flush()
    kids = []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                worker(prop, module, tier, seed, w, nw, deadline, known, wfd)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 4
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        os.close(wfd)
        kids.append((pid, r))
    found, errors, reports, lines, truncated = [], [], [], {}, 0
    # read all pipes concurrently: a worker blocks on a full pipe otherwise
    import selectors

    sel = selectors.DefaultSelector()
    bufs = {r: bytearray() for _, r in kids}
    for _, r in kids:
        sel.register(r, selectors.EVENT_READ)
    wall_limit = deadline + 200
    while sel.get_map():
        if time.time() > wall_limit:
            for pid, _ in kids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            errors.append("workers exceeded the wall-clock limit")
            break
        for key, _ in sel.select(timeout=5):
            chunk = os.read(key.fd, 1 << 20)
            if chunk:
                bufs[key.fd] += chunk
            else:
                sel.unregister(key.fd)
    for pid, r in kids:
        _, status = os.waitpid(pid, 0)
        os.close(r)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                found.append(
                    dict(property=prop, scenario="-", case=-1, seed=seed, tier=tier,
                         what=f"the process crashed with signal {sig}", events=[])
                )
            else:
                errors.append(f"a worker was ended by signal {sig}")
            continue
        if not bufs[r]:
            errors.append("a worker ended without a report")
            continue
        msg = pickle.loads(bytes(bufs[r]))
        found.extend(msg["found"])
        if not msg["ok"]:
            errors.append(msg["error"])
            continue
        truncated += msg["truncated"]
        reports.append(msg["report"])
        for f, ls in msg["lines"].items():
            lines.setdefault(f, set()).update(ls)

    tot = {k: Counter() for k in ("calls", "oracles", "features", "warned", "known_hits")}
    fps, ev, sk, samples = set(), 0, 0, []
    for r in reports:
        for k, c in tot.items():
            c.update(r[k])
        fps |= r["fingerprints"]
        ev += r["evaluations"]
        sk += r["skipped"]
        samples.extend(r["samples"])
    seen, keep = set(), []
    for s in sorted(samples, key=lambda s: (s["case"], s["scenario"])):
        if s["scenario"] not in seen:
            seen.add(s["scenario"])
            keep.append(s)
    anchored = getattr(module, "FILES", None) or sorted(lines)
    wall = time.time() - t0
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=ev,
            distinct_nontrivial=len(fps),
            rule=(
                "a case is one generated workload (scenario, number) run against the "
                "real package under the monitor; non-trivial: the oracle judged at "
                "least one observation of it; distinct: by a digest of the scenario "
                "and all argument values passed to the package. "
                + (module.__doc__ or "").strip().replace("\n", " ")
            ),
            samples=keep[:12],
            observed_calls=dict(tot["calls"].most_common()),
            oracle_decisions=dict(tot["oracles"].most_common()),
            workload_features=dict(sorted(tot["features"].items())),
            warnings_observed=dict(tot["warned"]),
            cases_outside_domain=sk,
            cases_truncated_by_time=truncated,
            known_findings_observed=dict(tot["known_hits"]),
            lines_executed={f: len(lines.get(f, ())) for f in anchored},
            workers=nw,
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(found),
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for key, text in known.items():
        print(f"KNOWN-FINDING: property={prop} {text} [{key}]")
    print(
        f"{prop} {tier} seed={seed}: {ev} cases, {len(fps)} distinct, "
        f"{sum(tot['calls'].values())} calls, {sum(tot['oracles'].values())} decisions, "
        f"{len(found)} violations, {wall:.1f} s"
        + (f", {truncated} scenario shards cut by time" if truncated else "")
    )
    if found:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        found.sort(key=lambda v: (v["scenario"], v["case"]))
        shown = Counter()
        for k, v in enumerate(found):
            if shown[v["scenario"]] >= 2:
                continue
            shown[v["scenario"]] += 1
            path = os.path.join(d, f"{prop}-{k}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  scenario {v['scenario']} case {v['case']}: {v['what'][:1500]}")
        return 1
    if errors:
        print("error: " + "\n".join(errors)[:3000])
        return 3
    if ev == 0:
        print("error: nothing was evaluated")
        return 3
    return 0
