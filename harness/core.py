"""Runner core: facets, Hypothesis driving, evidence, replay files.

A property is decided by one or more *facets*.  A facet is a Hypothesis strategy producing a plain
JSON-able case, and a function `fn(case, ctx)` that runs the real library on the case and raises
`Violation` when the oracle disagrees.  Everything random comes from the strategy, so a case is a
complete, replayable description of what happened.
"""
from __future__ import annotations

import asyncio
import hashlib
import importlib
import importlib.machinery
import json
import logging
import os
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

# the checks always judge /repo; the variable exists only to try them on scratch copies while developing
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

QUICK_SCALE = 3  # cases run per case listed in a facet's `quick` (the numbers were set while the checks were being built)
CASE_CPU_LIMIT = 10.0  # CPU seconds one single case may take (normal cases: milliseconds)


class Violation(Exception):
    """The oracle disagrees with the library."""


class Stall(KeyboardInterrupt):
    """One case used more than CASE_CPU_LIMIT seconds of CPU."""


class HarnessError(Exception):
    """The harness itself is wrong or cannot run."""


def check(cond: bool, fmt: str, *args: Any) -> None:
    if not cond:
        raise Violation(fmt % args if args else fmt)


def expect_equal(got: Any, want: Any, what: str) -> None:
    if got != want:
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


@dataclass
class Facet:
    name: str
    strategy: Any  # hypothesis strategy, or None for enumerated facets
    fn: Callable[[Any, "Ctx"], None]
    rule: str  # what makes a case non-trivial
    quick: int = 1000
    thorough: int = 20000
    enum: Callable[[str], list] | None = None  # complete enumeration for a tier (or part of it)
    corpus: list = field(default_factory=list)  # explicit cases, always run first
    shards: int = 4


class Ctx:
    """Per-case context handed to a facet function."""

    def __init__(self) -> None:
        self.nontrivial = False
        self.labels: dict[str, int] = {}

    def label(self, name: str) -> None:
        self.labels[name] = self.labels.get(name, 0) + 1

    def mark(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial = True


# --------------------------------------------------------------------------- importing the library

_code_cache: dict[str, Any] = {}
_orig_get_code = importlib.machinery.SourceFileLoader.get_code


def _get_code(self, fullname):
    # compile each /repo source once per process, straight from the working tree, never from a .pyc
    if not self.path.startswith(REPO + "/"):
        return _orig_get_code(self, fullname)
    code = _code_cache.get(self.path)
    if code is None:
        code = _code_cache[self.path] = self.source_to_code(self.get_data(self.path), self.path)
    return code


importlib.machinery.SourceFileLoader.get_code = _get_code


def purge_library() -> None:
    for name in [n for n in sys.modules if n == "pyown" or n.startswith("pyown.")]:
        del sys.modules[name]


class Lib:
    """The public names of the library, resolved from one fresh import."""

    def __init__(self) -> None:
        purge_library()
        imp = importlib.import_module
        root = imp("pyown")
        if not (root.__file__ or "").startswith(REPO + "/"):
            raise HarnessError(f"pyown imported from {root.__file__}")
        self.client = imp("pyown.client")
        self.auth = imp("pyown.auth")
        self.exc = imp("pyown.exceptions")
        self.items = imp("pyown.items")
        self.messages = imp("pyown.messages")
        self.protocol = imp("pyown.protocol")
        self.tags = imp("pyown.tags")
        self.tagbase = imp("pyown.tags.base")
        self.where = imp("pyown.tags.where")
        self.light_base = imp("pyown.items.lighting.base")
        self.energy_enums = imp("pyown.items.energy.enums")
        self.Client = self.client.Client
        self.SessionType = self.client.SessionType
        self.OWNProtocol = self.protocol.OWNProtocol
        self.parse_message = self.messages.parse_message


_lib: Lib | None = None


def lib() -> Lib:
    """The process-wide import of the library (for checks that need no fresh class state)."""
    global _lib
    if _lib is None:
        _lib = Lib()
    return _lib


def fresh_lib() -> Lib:
    """A completely fresh import (fresh class-level state)."""
    return Lib()


# --------------------------------------------------------------------------- running one case


def _on_prof(signum, frame):
    raise Stall(f"no result after {CASE_CPU_LIMIT:g} s of CPU time")


BLOCK_TICK, BLOCK_TICKS = 8.0, 4  # a case that uses no CPU at all for this many ticks waits for something that never comes
_block = [0, 0.0]


def _on_alarm(signum, frame):
    now = time.process_time()
    _block[0] = _block[0] + 1 if now - _block[1] < 0.02 else 0
    _block[1] = now
    if _block[0] >= BLOCK_TICKS:
        raise Stall("the whole process is blocked, waiting for something that never comes")


def arm() -> None:
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGALRM, _on_alarm)


def in_library(tb) -> bool:
    """True if the innermost frames of the traceback run library code (or code it called)."""
    found = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            found = True
        tb = tb.tb_next
    return found


def describe(e: BaseException) -> str:
    return f"{type(e).__name__}: {e}"


def run_case(facet: Facet, case: Any, ctx: Ctx) -> None:
    """Runs one case; raises Violation / Stall / HarnessError only."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    _block[:] = [0, -1.0]
    signal.setitimer(signal.ITIMER_REAL, BLOCK_TICK, BLOCK_TICK)
    try:
        facet.fn(case, ctx)
    except (Violation, Stall, HarnessError):
        raise
    except (SystemExit, GeneratorExit, asyncio.CancelledError) as e:
        raise Violation(f"{describe(e)} came out of the library") from e
    except Exception as e:
        if in_library(e.__traceback__):
            tb = traceback.extract_tb(e.__traceback__)
            at = [f"{f.filename}:{f.lineno}" for f in tb if f.filename.startswith(REPO + "/")][-1:]
            raise Violation(f"unexpected {describe(e)} at {at}") from e
        # never happens on a tree where the property holds: the library handed out something of an unexpected shape
        tb = traceback.extract_tb(e.__traceback__)
        raise Violation(f"a result could not be examined: {describe(e)} at {tb[-1].filename}:{tb[-1].lineno}") from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


@dataclass
class ShardResult:
    facet: str
    shard: int = 0
    evaluations: int = 0
    nontrivial: set = field(default_factory=set)
    labels: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    failure: tuple | None = None  # (case, message)
    error: str | None = None
    wall: float = 0.0


def _key(case: Any) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def run_shard(facet: Facet, tier: str, seed: int, shard: int, nshards: int) -> ShardResult:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 60

    logging.disable(logging.CRITICAL)
    arm()
    t0 = time.monotonic()
    res = ShardResult(facet.name, shard)
    last_fail: list = []
    shrinking = [False]

    def one(case):
        ctx = Ctx()
        try:
            run_case(facet, case, ctx)
        except Violation as e:
            last_fail[:] = [case, str(e)]
            shrinking[0] = True
            raise
        except Stall as e:
            last_fail[:] = [case, str(e)]
            raise
        finally:
            if not shrinking[0]:
                res.evaluations += 1
                for k, v in ctx.labels.items():
                    res.labels[k] = res.labels.get(k, 0) + v
                if ctx.nontrivial:
                    k = _key(case)
                    if k not in res.nontrivial:
                        res.nontrivial.add(k)
                        n = len(res.nontrivial)
                        if len(res.samples) < 3 and (n in (1, 5, 25) or n % 100 == 0):
                            res.samples.append(case)

    try:
        explicit = list(facet.corpus) if shard == 0 else []
        if facet.enum is not None:
            explicit += facet.enum(tier)[shard::nshards]
        for case in explicit:
            one(json.loads(json.dumps(case)))
        if facet.strategy is not None:
            total = facet.quick * QUICK_SCALE if tier == "quick" else facet.thorough
            n = max(1, total // nshards)
            cfg = settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
            )
            h = int.from_bytes(hashlib.sha1(f"{seed}/{facet.name}/{shard}".encode()).digest()[:6], "big")
            hypothesis.seed(h)(cfg(given(facet.strategy)(lambda case: one(case))))()
    except Violation:
        res.failure = tuple(last_fail)
    except Stall:
        res.failure = tuple(last_fail)
    except HarnessError as e:
        res.error = str(e)
    except Exception as e:  # Hypothesis errors: Flaky etc.
        if last_fail:
            res.failure = (last_fail[0], last_fail[1] + f" (not always reproducible: {type(e).__name__})")
        else:
            res.error = traceback.format_exc()
    except KeyboardInterrupt:
        raise
    res.wall = time.monotonic() - t0
    return res


# --------------------------------------------------------------------------- running one property


def _job(args):
    prop, fname, tier, seed, shard, nshards = args
    from registry import PROPERTIES

    facet = next(f for f in PROPERTIES[prop].facets if f.name == fname)
    r = run_shard(facet, tier, seed, shard, nshards)
    return r


def run_property(prop, tier: str, seed: int) -> int:
    """prop: registry.Property. Returns the exit code."""
    import multiprocessing as mp

    t0 = time.monotonic()
    lib()  # import once in the parent: workers inherit the compiled code
    jobs = []
    for f in prop.facets:
        n = max(f.shards, 4) if tier == "quick" else max(f.shards, 8)
        for s in range(n):
            jobs.append((prop.id, f.name, tier, seed, s, n))
    results: list[ShardResult] = []
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    late = None
    with mp.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
        it = pool.imap_unordered(_job, jobs, chunksize=1)
        while len(results) < len(jobs):
            try:
                results.append(it.next(timeout=max(1.0, deadline - time.monotonic())))
            except mp.TimeoutError:
                late = f"{len(jobs) - len(results)} of {len(jobs)} shards did not finish in time"
                break
            if results[-1].failure is not None:  # the violation is there: give the other shards some time to find a smaller one
                deadline = min(deadline, time.monotonic() + 90)
    results.sort(key=lambda r: (r.facet, r.shard))

    errors = [r.error for r in results if r.error]
    if late is not None and not any(r.failure for r in results):
        errors.append(late)
    failures: dict[str, tuple] = {}
    for r in results:
        if r.failure is not None:
            old = failures.get(r.facet)
            if old is None or len(json.dumps(r.failure[0])) < len(json.dumps(old[0])):
                failures[r.facet] = r.failure

    facets_ev = {}
    total_eval = 0
    all_nt: set = set()
    samples = []
    for f in prop.facets:
        rs = [r for r in results if r.facet == f.name]
        nt = set().union(*[r.nontrivial for r in rs])
        ev = sum(r.evaluations for r in rs)
        labels: dict[str, int] = {}
        for r in rs:
            for k, v in r.labels.items():
                labels[k] = labels.get(k, 0) + v
        facets_ev[f.name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(nt),
            "rule": f.rule,
            "classes": dict(sorted(labels.items())),
            "wall_s": round(sum(r.wall for r in rs), 2),
        }
        total_eval += ev
        all_nt |= nt
        for r in rs:
            for s in r.samples[:1]:
                if len([x for x in samples if x["facet"] == f.name]) < 2:
                    samples.append({"facet": f.name, "case": s})

    total_nt = len(all_nt)
    known = load_known(prop.id)
    violations = 0
    lines = []
    for fname, (case, msg) in sorted(failures.items()):
        kf = match_known(known, fname, case)
        if kf is not None:
            lines.append(f"KNOWN-FINDING: property={prop.id} {kf['what']}")
            continue
        violations += 1
        path = write_replay(prop.id, fname, case, msg, seed)
        lines.append(f"VIOLATION property={prop.id} replay={path}")
        lines.append(f"  facet {fname}: {msg}"[:2000])
        lines.append(f"  case: {json.dumps(case, default=str)}"[:2000])

    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total_eval,
            "distinct_nontrivial": total_nt,
            "rule": prop.rule,
            "samples": samples,
            "facets": facets_ev,
            "harness_errors": len(errors),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop.id}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write("\n")
    os.replace(path + ".tmp", path)

    for line in lines:
        print(line)
    print(
        f"{prop.id} {tier} seed={seed}: {total_eval} cases, {total_nt} distinct non-trivial, "
        f"{violations} violation(s), {len(errors)} harness error(s), {evidence['wall_s']} s"
    )
    if violations:
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    return 0


def write_replay(pid: str, facet: str, case: Any, msg: str, seed: int) -> str:
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{facet}-{_key(case)}.json")
    with open(path, "w") as fh:
        json.dump(
            {"property": pid, "facet": facet, "case": case, "message": msg, "seed": seed,
             "how": f"bash /verif/run.sh replay {path}"},
            fh, indent=1, default=str,
        )
        fh.write("\n")
    return path


def load_known(pid: str) -> list[dict]:
    """Known (unrepaired) findings: lines `known: property=ID facet=F case=<json> what=<text>`."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        if not line.startswith(f"known: property={pid} "):
            continue
        _, _, rest = line.partition("facet=")
        facet, _, rest = rest.partition(" case=")
        case, _, what = rest.partition(" what=")
        out.append({"facet": facet.strip(), "case": json.loads(case), "what": what.strip()})
    return out


def match_known(known: list[dict], facet: str, case: Any) -> dict | None:
    for k in known:
        if k["facet"] == facet and k["case"] == json.loads(json.dumps(case, default=str)):
            return k
    return None
