"""Runner for the property checks.

A property module registers sub-checks.  A sub-check is a Hypothesis strategy that
yields a *case* (a plain JSON value) and a function ``fn(case, ctx)`` that runs the code
under test on that case and compares the outcome with an independent oracle.  Every
random choice comes from the strategy, seeded with VERIF_SEED; the case alone therefore
reproduces the outcome, and a shrunk failing case is the replay file.
"""
import collections
import dataclasses
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

from . import boot

VERIF = boot.VERIF
OUT = os.environ.get("PP_OUT", VERIF)  # where evidence and replays go
FAST = bool(os.environ.get("PP_FAST"))  # stop at the first failure, unshrunk (tools/mutate.py)


class Violation(Exception):
    """The code under test broke the property on the case at hand."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


@dataclasses.dataclass
class SubCheck:
    name: str
    strategy: object
    fn: object
    quick: int
    thorough: int
    examples: tuple = ()
    shards: int = 8  # at most this many worker processes


CURRENT = {"module": None}
REGISTRY = collections.OrderedDict()  # name -> SubCheck of the module being run


def check(name, strategy, quick=100, thorough=None, examples=(), shards=8):
    def deco(fn):
        if fn.__module__ == CURRENT["module"]:  # not those of a module it borrows helpers from
            REGISTRY[name] = SubCheck(
                name, strategy, fn, quick, thorough or quick * 12, tuple(examples), shards
            )
        return fn

    return deco


# ---------------------------------------------------------------------- context


class Ctx:
    """What a sub-check reports about one case, and its assertion helpers."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True

    # -- calling the code under test
    def call(self, what, fn, *args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001 - any exception on valid input
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-3:]
            raise Violation(
                f"{what} raised {type(e).__name__}: {e} on valid input (at {' > '.join(where)})"
            ) from e

    def refused(self, what, exceptions, fn, *args, **kwargs):
        """``fn`` must refuse its arguments with one of ``exceptions``."""
        try:
            r = fn(*args, **kwargs)
        except exceptions:
            return
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001
            names = "/".join(x.__name__ for x in exceptions)
            raise Violation(
                f"{what}: raised {type(e).__name__}: {e}, instead of the documented {names}"
            ) from e
        raise Violation(f"{what}: accepted, and returned {short(r)}")

    # -- assertions
    def ok(self, cond, message):
        if not cond:
            raise Violation(message() if callable(message) else message)

    def equal(self, got, want, what):
        if isinstance(got, np.ndarray) or isinstance(want, np.ndarray):
            g, w = np.asarray(got), np.asarray(want)
            same = g.shape == w.shape and bool(np.all(g == w))
        else:
            same = bool(got == want)
        if not same:
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")

    def close(self, got, want, what, rtol=1e-9, atol=0.0):
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation(f"{what}: got shape {g.shape} {short(got)}, expected {w.shape} {short(want)}")
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation(f"{what}: got {short(got)}, expected {short(want)}")


def short(x, n=300):
    s = repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------------- running a case

_real_default_rng = np.random.default_rng


class _SeededDefaultRng:
    """``numpy.random.default_rng`` whose unseeded generators depend on the case only."""

    def __init__(self, base):
        self.base = base
        self.count = 0

    def __call__(self, seed=None):
        if seed is None:
            self.count += 1
            return _real_default_rng([self.base, self.count])
        return _real_default_rng(seed)


def canon(case):
    return json.dumps(case, sort_keys=True, allow_nan=True)


def seed_everything(number):
    import random

    random.seed(number)
    np.random.seed(number % 2**32)
    np.random.default_rng = _SeededDefaultRng(number)


class Hang(Violation):
    pass


HANG_S = 150  # the slowest case takes about a second


def _on_alarm(signum, frame):
    raise Hang(f"did not finish within {HANG_S} s (cases of this check take well under {HANG_S // 10} s)")


def run_case(sub, case):
    """Run one case; returns its ctx, raises Violation when the property is broken."""
    ctx = Ctx()
    seed_everything(zlib.crc32(canon(case).encode()))
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_S)
    try:
        sub.fn(case, ctx)
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # noqa: BLE001
        # The oracles are total on what the code under test is documented to return and
        # are exercised on the unchanged tree with several seeds, so a result they cannot
        # digest (wrong type, shape, missing attribute) is a wrong result.
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
        raise Violation(
            f"unusable result: {type(e).__name__}: {e} (at {' > '.join(where)})"
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        np.random.default_rng = _real_default_rng
    return ctx


# ---------------------------------------------------------------------- exploring


def explore(sub, seed, tier, deadline, shard=0, shards=1):
    """Drive one sub-check; returns a plain dict describing what happened."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    out = {
        "name": sub.name,
        "evaluations": 0,
        "nontrivial_keys": [],
        "labels": {},
        "samples": [],
        "failure": None,
        "error": None,
        "truncated": False,
    }
    labels = collections.Counter()
    keys = set()
    state = {"fail": None, "hang": None}

    def one(case, counting=True):
        if state["hang"]:
            raise state["hang"]  # no shrinking of a case that does not end
        try:
            ctx = run_case(sub, case)
        except Violation as v:
            state["fail"] = (case, str(v))
            state.setdefault("since", time.time())
            if isinstance(v, Hang):
                state["hang"] = v
            raise
        if counting and state["fail"] is None:
            out["evaluations"] += 1
            if isinstance(case, dict) and len(case.get("pts") or ()) > 120:
                ctx.label("more than 120 points")
            labels.update(ctx.labels)
            if ctx.nontrivial:
                k = hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()
                if k not in keys:
                    keys.add(k)
                    if len(out["samples"]) < 3:
                        text = canon(case)
                        out["samples"].append(case if len(text) < 1500 else text[:1500])

    try:
        for ex in sub.examples[shard::shards]:
            one(ex)
        n = sub.quick if tier == "quick" else sub.thorough
        n = -(-n // shards)
        rounds = 1 if tier == "quick" else 4
        for rnd in range(rounds):
            if sub.strategy is None or not n:
                break

            @hypothesis.seed(zlib.crc32(f"{seed}/{rnd}/{shard}/{sub.name}".encode()))
            @settings(
                max_examples=max(1, n // rounds),
                database=None,
                deadline=None,
                print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large],
            )
            @given(sub.strategy)
            def prop(case):
                if state["fail"] is None and time.time() > deadline:
                    out["truncated"] = True
                    return
                if state["fail"] is not None and time.time() > min(deadline + 120, state["since"] + (60 if tier == "quick" else 300)):
                    return  # stop shrinking: remaining candidates count as passing
                one(case)

            prop()
            if out["truncated"]:
                break
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is None or isinstance(e, (KeyboardInterrupt, MemoryError)):
            out["error"] = "".join(traceback.format_exception(e))[-4000:]
        # else: Hypothesis found the outcome not to repeat; the violation was observed
    if state["fail"] is not None and out["error"] is None:
        case, msg = state["fail"]
        out["failure"] = {"case": case, "message": msg}
    out["labels"] = dict(labels)
    out["nontrivial_keys"] = sorted(keys)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def _worker(conn, sub, *args):
    try:
        res = explore(sub, *args)
    except BaseException as e:  # noqa: BLE001
        res = {"name": sub.name, "error": "".join(traceback.format_exception(e))[-4000:]}
    conn.send(json.dumps(res, default=_jsonable))
    conn.close()


def _jsonable(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return repr(x)


def explore_all(subs, seed, tier, deadline, jobs):
    """Run every sub-check, each split into shards with their own seed, in forked workers."""
    ctx = multiprocessing.get_context("fork")
    pending = []
    for sub in subs:
        n = sub.quick if tier == "quick" else sub.thorough
        shards = max(1, min(8, max(n // 4, len(sub.examples)), sub.shards))
        pending += [(sub, shard, shards) for shard in range(shards)]
    running = []
    results = {s.name: [] for s in subs}
    while pending or running:
        while pending and len(running) < jobs:
            sub, shard, shards = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(
                target=_worker, args=(b, sub, seed, tier, deadline, shard, shards), daemon=True
            )
            p.start()
            b.close()
            running.append((p, a, sub))
        ready = multiprocessing.connection.wait([r[1] for r in running], timeout=5)
        for item in list(running):
            p, a, sub = item
            if a in ready:
                try:
                    results[sub.name].append(json.loads(a.recv()))
                except EOFError:
                    p.join()
                    results[sub.name].append(
                        {
                            "name": sub.name,
                            "error": f"worker for {sub.name} died (exit code {p.exitcode})",
                        }
                    )
                p.join()
                running.remove(item)
        if FAST and any(r.get("failure") for rs in results.values() for r in rs):
            for p, _, _ in running:
                p.terminate()
            break
    return [merge(s.name, results[s.name]) for s in subs]


def merge(name, parts):
    out = {"name": name, "error": None, "failure": None, "evaluations": 0, "samples": [], "wall_s": 0,
           "truncated": False}
    labels, keys = collections.Counter(), set()
    for r in parts:
        out["error"] = out["error"] or r.get("error")
        f = r.get("failure")
        if f and (out["failure"] is None or len(canon_any(f["case"])) < len(canon_any(out["failure"]["case"]))):
            out["failure"] = f
        out["evaluations"] += r.get("evaluations", 0)
        labels.update(r.get("labels", {}))
        keys.update(r.get("nontrivial_keys", ()))
        out["samples"] += r.get("samples", [])
        out["wall_s"] = max(out["wall_s"], r.get("wall_s", 0))
        out["truncated"] = out["truncated"] or r.get("truncated", False)
    out["samples"] = sorted(out["samples"], key=canon_any)[:3]
    out["labels"] = dict(sorted(labels.items()))
    out["nontrivial_keys"] = sorted(keys)
    return out


def canon_any(case):
    return json.dumps(case, sort_keys=True, default=_jsonable)


# ---------------------------------------------------------------------- command line


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get("known", []) if k["property"] == prop]


def write_replay(prop, failure, name):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json".replace(" ", "_"))
    with open(path, "w") as fh:
        json.dump(
            {"property": prop, "check": name, "case": failure["case"], "message": failure["message"]},
            fh,
            indent=1,
            default=_jsonable,
        )
    return path


def main(prop, doc, argv):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    subs = list(REGISTRY.values())

    if argv[:1] == ["--replay"]:
        with open(argv[1]) as fh:
            rec = json.load(fh)
        try:
            run_case(REGISTRY[rec["check"]], rec["case"])
        except Violation as v:
            print(f"{rec['check']}: {v}")
            print(f"VIOLATION property={prop} replay={argv[1]}")
            return 1
        print("the recorded case passes")
        return 0
    if argv[:1] == ["--only"]:
        subs = [REGISTRY[n] for n in argv[1].split(",")]

    budget = 420 if tier == "quick" else 780
    jobs = int(os.environ.get("PP_JOBS", "0")) or min(8, os.cpu_count() or 1)
    results = explore_all(subs, seed, tier, t0 + budget, jobs)

    errors = [r for r in results if r.get("error")]
    failures = [r for r in results if r.get("failure")]

    status = []
    for k in known_findings(prop):
        sub = REGISTRY.get(k["check"])
        if sub is None:
            errors.append({"name": k["check"], "error": "unknown check in known_findings.json"})
            continue
        try:
            run_case(sub, k["case"])
        except Violation:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
            status.append("known")

    nontrivial = sum(len(r.get("nontrivial_keys", ())) for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r.get("evaluations", 0) for r in results),
            "distinct_nontrivial": nontrivial,
            "rule": " ".join((doc or "").split()),
            "samples": [
                {"check": r["name"], "case": s} for r in results for s in r.get("samples", [])[:2]
            ],
            "per_check": {
                r["name"]: {
                    "evaluations": r.get("evaluations", 0),
                    "distinct_nontrivial": len(r.get("nontrivial_keys", ())),
                    "labels": r.get("labels", {}),
                    "wall_s": r.get("wall_s"),
                    "stopped_by_time_budget": r.get("truncated", False),
                }
                for r in results
            },
            "known_findings_reproduced": len(status),
        },
        "violations": len(failures),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=_jsonable)

    for r in failures:
        path = write_replay(prop, r["failure"], r["name"])
        print(f"{r['name']}: {r['failure']['message']}")
        print(f"VIOLATION property={prop} replay={path}")
    for r in errors:
        print(f"ERROR in check {r['name']}:\n{r['error']}", file=sys.stderr)
    print(
        f"{prop}: {evidence['coverage']['evaluations']} cases,"
        f" {nontrivial} distinct non-trivial, {len(failures)} violations,"
        f" {evidence['wall_s']} s"
    )
    if failures:
        return 1
    return 2 if errors else 0
