"""Runner: Hypothesis searches JSON-able cases, a plain function judges each one.

A facet is (name, strategy, check).  ``check(case, ctx)`` calls geoana and an oracle
and raises :class:`Violation` when they disagree.  The strategy produces plain JSON
data, so the shrunk failing case *is* the replay file and is replayed without Hypothesis.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import mmap
import struct
import sys
import time
import traceback
import warnings

import numpy as np

from . import gen  # noqa: F401  (puts hypothesis on sys.path)
import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis.errors import UnsatisfiedAssumption

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PKG = "/repo/geoana"


class Violation(AssertionError):
    """The code under test broke the property."""


class Discard(Exception):
    """The case lies outside of the property's domain."""


def fail(msg):
    raise Violation(msg)


class Ctx:
    """Per case bookkeeping."""

    def __init__(self):
        self.labels = set()
        self.trivial = False
        self.known = []

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def known_finding(self, kid, what):
        self.known.append((kid, what))


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, doc):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.doc = quick, thorough, doc


def facet(registry, strategy, quick, thorough=None, name=None):
    """Decorator registering ``check(case, ctx)``; quick/thorough are case counts."""

    def wrap(fn):
        registry.append(Facet(name or fn.__name__, strategy, fn, quick,
                              thorough or 15 * quick, (fn.__doc__ or "").strip()))
        return fn

    return wrap


# --------------------------------------------------------------------------- compare
def arr(x):
    return np.asarray(x)


def check_shape(what, actual, shape):
    a = np.shape(actual)
    if tuple(a) != tuple(shape):
        fail(f"{what}: shape {a}, expected {tuple(shape)}")


def close(what, actual, expected, rtol=1e-9, atol=0.0, shape=True):
    """|actual - expected| <= atol + rtol*|expected|, elementwise; same shape; no NaN."""
    a = np.asarray(actual)
    e = np.asarray(expected)
    a = a.astype(float) if a.dtype == bool else a
    e = e.astype(float) if e.dtype == bool else e
    if a.dtype == object:
        fail(f"{what}: not numeric: {actual!r}")
    if shape and a.shape != e.shape:
        fail(f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0 and e.size == 0:
        return
    with np.errstate(all="ignore"):
        err = np.abs(a - e)
        tol = atol + rtol * np.abs(e)
        same = (a == e)
        ok = same | (err <= tol)
    if not np.all(ok):
        bad = np.unravel_index(int(np.argmin(np.broadcast_to(ok, err.shape))), err.shape)
        aa, ee = np.broadcast_to(a, err.shape), np.broadcast_to(e, err.shape)
        tt = np.broadcast_to(tol, err.shape)
        fail(f"{what}: got {aa[bad]!r}, expected {ee[bad]!r} (tolerance {tt[bad]:.3g}) at index {tuple(int(i) for i in bad)}")


def vec_close(what, actual, expected, rtol=1e-9, atol=0.0, axes=1):
    """Like close, with the tolerance relative to the norm over the last ``axes`` axes."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        fail(f"{what}: shape {a.shape}, expected {e.shape}")
    n = np.sqrt(np.sum(np.abs(e) ** 2, axis=tuple(range(-axes, 0)), keepdims=True))
    # avoid under/overflow in the square
    m = np.max(np.abs(e), axis=tuple(range(-axes, 0)), keepdims=True) if e.size else n
    n = np.where(np.isfinite(n) & (n > 0), n, m)
    close(what, a, e, rtol=0.0, atol=atol + rtol * n)


def same(what, actual, expected):
    """Bitwise equal (NaN equal to NaN), same shape and dtype kind."""
    a, e = np.asarray(actual), np.asarray(expected)
    if a.shape != e.shape:
        fail(f"{what}: shape {a.shape}, expected {e.shape}")
    if not np.array_equal(a, e, equal_nan=a.dtype.kind in "fc" and e.dtype.kind in "fc"):
        fail(f"{what}: got {a!r}, expected {e!r}")


def truth(what, cond, detail=""):
    if not cond:
        fail(f"{what}{': ' if detail else ''}{detail}")


def raises(what, exc, fn, *args, **kw):
    """fn must raise one of exc."""
    try:
        out = fn(*args, **kw)
    except exc:
        return
    except Exception as e:  # a different exception than the documented ones
        fail(f"{what}: raised {type(e).__name__}: {e}, expected {exc}")
    fail(f"{what}: accepted, returned {out!r}")


# --------------------------------------------------------------------------- running
def _from_geoana(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO_PKG) or fn.startswith("geoana/") or "/geoana-build" in fn:
            return True
        tb = tb.tb_next
    return False


def run_case(fac, case, ctx):
    """Judge one case; exceptions leaving geoana on in-domain input are violations."""
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            fac.check(case, ctx)
        except (Violation, Discard, UnsatisfiedAssumption, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if _from_geoana(e.__traceback__):
                tb = traceback.format_exception(e)
                raise Violation(f"geoana raised {type(e).__name__}: {e}\n" + "".join(tb)[-1500:]) from None
            # the harness judges every answer of the kind geoana documents: this one is of another kind
            tb = traceback.format_exception(e)
            raise Violation(f"the answer could not be judged: {type(e).__name__}: {e}\n" + "".join(tb)[-1500:]) from None


def derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:7], "big")


CRASH = {4, 6, 7, 8, 11}  # SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
HANG = 300.0  # seconds one case may take; ordinary cases take milliseconds to seconds
_HEAD = 16


def _note(board, case):
    """Leave the case about to be judged where the parent finds it if this process dies."""
    s = b"" if case is None else json.dumps(case).encode()
    if len(s) > len(board) - _HEAD:
        s = b"null"
    board[_HEAD:_HEAD + len(s)] = s
    board[:_HEAD] = struct.pack("<dq", time.time(), len(s))


def _busy(board):
    """Since when the current case has been running (None between cases)."""
    t, n = struct.unpack("<dq", board[:_HEAD])
    return t if n else None


def _noted(board):
    """The case of a process that has ended."""
    t, n = struct.unpack("<dq", board[:_HEAD])
    try:
        return json.loads(bytes(board[_HEAD:_HEAD + n])) if n else None
    except ValueError:
        return None


def _shard(pid, fac, shard, n, seed, known_ids, deadline, conn, board):
    t0 = time.time()
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # only the parent reports
    sys.stdout = open(os.devnull, "w")
    stats = dict(facet=fac.name, evaluations=0, discarded=0, skipped=0, nontrivial=set(), labels={},
                 samples=[], known={}, violation=None, error=None)
    last = {}

    def judge(case):
        if time.time() > deadline:
            stats["skipped"] += 1
            return
        ctx = Ctx()
        _note(board, case)
        try:
            run_case(fac, case, ctx)
            for kid, what in ctx.known:
                if kid not in known_ids:
                    raise Violation(f"{what} (no entry {kid} in known_findings.json)")
                stats["known"][kid] = stats["known"].get(kid, 0) + 1
        except Discard:
            stats["discarded"] += 1
            return
        except Violation as v:
            last["case"], last["msg"] = case, str(v)
            raise
        finally:
            stats["evaluations"] += 1
            _note(board, None)
        for lb in ctx.labels:
            stats["labels"][lb] = stats["labels"].get(lb, 0) + 1
        if not ctx.trivial:
            s = json.dumps(case, sort_keys=True)
            stats["nontrivial"].add(hashlib.sha256((fac.name + s).encode()).digest()[:8])
            if len(s) < 1500 and (len(stats["samples"]) < 1 or
                                  (stats["evaluations"] % max(1, n // 2) == 0 and len(stats["samples"]) < 2)):
                stats["samples"].append({"facet": fac.name, "case": case})

    try:
        import hypothesis.internal.conjecture.engine as eng
        for name in ("MAX_SHRINKING_SECONDS",):
            if hasattr(eng, name):
                setattr(eng, name, 20)
        if n <= 1:
            phases = (Phase.generate,)
        else:
            phases = (Phase.generate, Phase.shrink)
        test = hypothesis.given(fac.strategy)(judge)
        test = settings(max_examples=n, deadline=None, database=None, phases=phases,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        print_blob=False)(test)
        test = hypothesis.seed(derive(seed, pid, fac.name, shard))(test)
        test()
    except Violation:
        stats["violation"] = dict(last)
    except hypothesis.errors.Flaky as e:
        if last:
            stats["violation"] = dict(last)
        else:
            stats["error"] = f"flaky: {e}"
    except BaseException as e:
        stats["error"] = "".join(traceback.format_exception(e))[-6000:]
    stats["wall"] = time.time() - t0
    try:
        conn.send(stats)
    except BaseException as e:  # unpicklable sample
        stats["samples"] = []
        stats["error"] = (stats["error"] or "") + f"\ncannot send: {e}"
        conn.send(stats)
    conn.close()


def _dead(fac, error):
    return dict(facet=fac.name, evaluations=0, discarded=0, skipped=0, nontrivial=set(), labels={}, samples=[], known={},
                violation=None, wall=0.0, error=error)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {k["id"]: k["what"] for k in data["known"] if k["property"] == pid}


# number of quick cases relative to the facets' own counts, such that a check takes about half a minute on eight cores
FACTOR = dict.fromkeys(["P01", "P05", "P06", "P07", "P08", "P09", "P12", "P13", "P22"], 3)
FACTOR["P18"] = 4


def run_property(pid, facets, assumptions, tier, seed, workers=8, only=None, budget=None):
    t0 = time.time()
    known = load_known(pid)
    if budget is None:
        budget = 450 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    jobs = []
    for fac in facets:
        if only and fac.name not in only:
            continue
        n = fac.quick if tier == "quick" else fac.thorough
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        if tier == "quick":
            scale *= FACTOR.get(pid, 2)
        n = max(1, int(n * scale))
        shards = min(workers, max(1, n // 12)) if tier == "quick" else min(workers, max(1, n // 12))
        per = max(1, math.ceil(n / shards))
        for s in range(shards):
            jobs.append((fac, s, per))
    jobs.sort(key=lambda j: j[1])
    ctx = mp.get_context("fork")
    running, results = [], []
    queue = list(jobs)
    stop = False
    while queue or running:
        while queue and len(running) < workers and not stop:
            fac, s, per = queue.pop(0)
            rd, wr = ctx.Pipe(False)
            board = mmap.mmap(-1, 1 << 18)
            _note(board, None)
            p = ctx.Process(target=_shard, args=(pid, fac, s, per, seed, set(known), deadline, wr, board), daemon=True)
            p.start()
            wr.close()
            running.append((p, rd, fac, board))
        ready = mp.connection.wait([r[1] for r in running] + [r[0].sentinel for r in running], timeout=5)
        for item in list(running):
            p, rd, fac, board = item
            got = None
            if rd in ready or rd.poll():
                try:
                    got = rd.recv()
                except EOFError:
                    p.join(5)
                    got = _dead(fac, f"worker of facet {fac.name} died with exit code {p.exitcode}")
                    case = _noted(board)
                    if p.exitcode is not None and -p.exitcode in CRASH and case is not None:
                        got["violation"] = dict(case=case, msg=f"the process was killed by signal {-p.exitcode} in this call")
            else:
                t = _busy(board)
                if t is not None and time.time() - t > HANG:
                    p.kill()
                    p.join(10)
                    case = _noted(board)
                    got = _dead(fac, f"worker of facet {fac.name} hung")
                    got["violation"] = dict(case=case, msg=f"no answer within {HANG:.0f} s")
                elif time.time() > deadline + HANG + 60:
                    p.kill()
                    got = _dead(fac, f"worker of facet {fac.name} did not finish")
            if got is not None:
                results.append(got)
                running.remove(item)
                p.join(10)
                if p.is_alive():
                    p.kill()
                if got["violation"]:
                    stop = True
        if stop:
            queue = []
    return finish(pid, facets, results, known, assumptions, tier, seed, time.time() - t0)


def finish(pid, facets, results, known, assumptions, tier, seed, wall):
    nontrivial = set()
    evaluations = sum(r["evaluations"] for r in results)
    per = {}
    samples, kn = [], {}
    for r in results:
        nontrivial |= r["nontrivial"]
        d = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=0, discarded=0, skipped_budget=0, cpu_s=0.0, labels={}))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["nontrivial"])
        d["discarded"] += r["discarded"]
        d["skipped_budget"] += r["skipped"]
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 1)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if r["samples"] and sum(s["facet"] == r["facet"] for s in samples) < 1:
            samples.extend(r["samples"][:1])
        for k, v in r["known"].items():
            kn[k] = kn.get(k, 0) + v
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    for d in per.values():
        d["labels"] = dict(sorted(d["labels"].items())[:40])
    docs = {f.name: f.doc for f in facets}
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": "Each facet draws JSON cases with Hypothesis and compares geoana with its oracle; a case is "
                    "non-trivial when the oracle's tolerance lies well below the compared signal and the case was "
                    "not discarded (facets mark the others as trivial). Facets: "
                    + "; ".join(f"{k}: {' '.join(v.split())[:220]}" for k, v in docs.items()),
            "samples": samples[:25],
            "facets": per,
            "known_findings_hit": kn,
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    text = json.dumps(evidence, indent=1)
    while len(text) > 60000 and evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"].pop()
        text = json.dumps(evidence, indent=1)
    if tier != "adhoc":
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            f.write(text)
    for k, n in sorted(kn.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]} ({n} generated cases)")
    print(f"{pid}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, {wall:.1f} s")
    if violations:
        done = set()
        for r in violations:
            if r["facet"] in done:
                continue
            done.add(r["facet"])
            v = r["violation"]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{pid}_{r['facet']}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "facet": r["facet"], "case": v["case"], "message": v["msg"]}, f, indent=1)
            print(f"  facet {r['facet']}: {v['msg']}")
            print(f"  case: {json.dumps(v['case'])[:1500]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for r in errors[:1]:
            print(f"ERROR in facet {r['facet']}:\n{r['error'][-2500:]}")
        return 2
    return 0


def replay(pid, facets, path):
    with open(path) as f:
        data = json.load(f)
    known = load_known(pid)
    fac = next(f for f in facets if f.name == data["facet"])
    ctx = Ctx()
    try:
        run_case(fac, data["case"], ctx)
    except Violation as v:
        print(f"  {v}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except Discard:
        print("case outside of the domain")
        return 0
    for kid, what in ctx.known:
        if kid not in known:
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        print(f"KNOWN-FINDING: property={pid} {known[kid]}")
    print("held")
    return 0
