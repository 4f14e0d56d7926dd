"""Exploration core shared by every check.

A check is a module ``checks/<ID>.py`` with:

- ``LEVEL``, ``RULE`` (what is enumerated), optional ``ASSUMPTIONS``;
- case functions ``fn(*args) -> observation`` with JSON-serialisable ``args``, which
  drive the real code and raise :class:`Violation` when the property is broken;
- ``explore(ck)`` which enumerates the bounded space with ``ck.run`` / ``ck.sweep``.

Every case is deterministic and self-contained, so that a violation is a replayable
artefact: (module, function, args) is written to ``out/replay`` and can be re-run with
``python -m mc.replay FILE``.
"""
import concurrent.futures
import concurrent.futures.process
import contextlib
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VERIF_JOBS", "0") or 0) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property is broken. ``key`` identifies the specific failing history."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class HarnessError(Exception):
    """The check itself is wrong (not the code under test)."""


class Stop(Exception):
    """Enough violations collected."""


class Timeout(BaseException):
    """A case did not terminate."""


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg(), key)


class Stats(dict):
    """What a case reports: states (iterable of keys), transitions (int)."""


def stats(states=(), transitions=0, outcome=None, nontrivial=True, traces=1):
    return Stats(
        states=[_h(s) for s in states],
        transitions=transitions,
        outcome=_h(outcome),
        nontrivial=nontrivial,
        traces=traces,
    )


def _h(x):
    if isinstance(x, bytes):
        return hashlib.blake2b(x, digest_size=8).hexdigest()
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


@contextlib.contextmanager
def limit(seconds):
    """Bound the time of one case (pure Python loops are interrupted)."""

    def handler(signum, frame):
        raise Timeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def in_repo(tb):
    """Whether a traceback passes through the code under test."""
    src = os.path.join(REPO, "src") + os.sep
    return any(f.filename.startswith(src) for f in traceback.extract_tb(tb))


def call_case(fn, args, timeout):
    """Run one case. Returns (violation or None, stats)."""
    try:
        with limit(timeout):
            out = fn(*args)
    except Violation as e:
        return (e.key, e.msg), None
    except Timeout:
        return (None, f"did not terminate within {timeout} s"), None
    except HarnessError:
        raise
    except Exception as e:
        # No case raises on code where the property holds: an exception, whether in
        # the code under test or in a comparison which chokes on what it returned,
        # means that the observable result is not the specified one.
        try:
            text = "".join(traceback.format_exception(e))[-1800:]
            message = str(e)
        except Exception:
            # Exceptions may fail to describe themselves
            text, message = "".join(traceback.format_tb(e.__traceback__))[-1800:], "?"
        return (None, f"unexpected {type(e).__name__}: {message}\n{text}"), None
    if not isinstance(out, Stats):
        out = stats(outcome=out)
    return None, out


def _worker(modname, fname, chunk, timeout):
    fn = getattr(importlib.import_module(modname), fname)
    results = []
    sys.stdout.flush()
    # Code under test may print; keep the check's stdout clean
    with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
        for args in chunk:
            results.append((args, *call_case(fn, args, timeout)))
    return results


class Check:
    MAX_VIOLATIONS = 3

    def __init__(self, pid, module):
        self.pid = pid
        self.module = module
        self.tier = TIER
        self.thorough = TIER == "thorough"
        self.seed = SEED
        self.t0 = time.time()
        self.evaluations = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.outcomes = set()
        self.distinct = set()
        self.samples = []
        self.parts = {}
        self.violations = []
        self.known_hits = {}
        self.known = load_known(pid)

    # ---- reporting ----

    def fail(self, fn, args, key, msg):
        if key is not None and key in self.known:
            if key not in self.known_hits:
                self.known_hits[key] = 0
                print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}")
            self.known_hits[key] += 1
            return
        path = os.path.join(
            HERE, "out", "replay", f"{self.pid}-{_h((fn.__name__, args, msg))}.json"
        )
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            json.dump(
                {
                    "property": self.pid,
                    "module": fn.__module__,
                    "function": fn.__name__,
                    "args": args,
                    "key": key,
                    "message": msg,
                },
                fp,
                indent=1,
                default=str,
            )
        self.violations.append((fn.__name__, args, key, msg, path))
        print(f"VIOLATION property={self.pid} replay={path}")
        print(f"  {fn.__name__}{tuple(args)!r}"[:600])
        for line in str(msg).splitlines()[:30]:
            print("  " + line)
        sys.stdout.flush()
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise Stop()

    def _record(self, fn, args, viol, out):
        self.evaluations += 1
        part = self.parts.setdefault(fn.__name__, {"cases": 0, "outcomes": set()})
        part["cases"] += 1
        if viol is not None:
            self.fail(fn, args, *viol)
            return
        self.transitions += out["transitions"]
        self.traces += out["traces"]
        self.states.update(out["states"])
        self.outcomes.add((fn.__name__, out["outcome"]))
        part["outcomes"].add(out["outcome"])
        if out["nontrivial"]:
            self.distinct.add(_h((fn.__name__, args)))
        if part["cases"] in (1, 50, 500):
            self.samples.append({"case": fn.__name__, "args": _short(args)})

    # ---- exploration ----

    def run(self, fn, *args, timeout=60):
        """Run one case in this process."""
        args = list(args)
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            viol, out = call_case(fn, args, timeout)
        self._record(fn, args, viol, out)

    def sweep(self, fn, cases, jobs=None, chunk=None, timeout=60):
        """Run every case of a finite enumeration (argument tuples), in parallel."""
        cases = [list(c) for c in cases]
        jobs = JOBS if jobs is None else jobs
        if jobs <= 1 or len(cases) < 16:
            for c in cases:
                self.run(fn, *c, timeout=timeout)
            return
        if chunk is None:
            chunk = max(1, min(500, len(cases) // (jobs * 4) or 1))
        chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
        sys.stdout.flush()
        ctx = multiprocessing.get_context("fork")
        pool = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx)
        futures = [
            pool.submit(_worker, fn.__module__, fn.__name__, c, timeout) for c in chunks
        ]
        done = 0
        try:
            for fut in futures:
                for args, viol, out in fut.result():
                    self._record(fn, args, viol, out)
                done += 1
        except concurrent.futures.process.BrokenProcessPool:
            # The code under test ended a process: find the case which does
            pool.shutdown(wait=False, cancel_futures=True)
            for c in itertools.chain.from_iterable(chunks[done:]):
                self._alone(ctx, fn, c, timeout)
            return
        except BaseException:
            # NOTE: Not waiting, since the pool may never end if its processes are
            # killed while they return a result
            processes = list((getattr(pool, "_processes", None) or {}).values())
            pool.shutdown(wait=False, cancel_futures=True)
            for p in processes:
                with contextlib.suppress(Exception):
                    p.kill()
            raise
        pool.shutdown(wait=True)

    def _alone(self, ctx, fn, args, timeout):
        """Run one case in its own process, which may die."""
        reader, writer = ctx.Pipe(duplex=False)

        def target():
            try:
                (result,) = _worker(fn.__module__, fn.__name__, [args], timeout)
                writer.send(result)
            except BaseException:
                traceback.print_exc()
                writer.send(None)

        process = ctx.Process(target=target)
        process.start()
        writer.close()
        try:
            result = reader.recv()
        except EOFError:
            process.join()
            result = args, (None, f"the process died ({process.exitcode})"), None
        process.join()
        if result is None:
            raise HarnessError(f"{fn.__name__}{tuple(args)!r}")
        self._record(fn, *result)

    # ---- end ----

    def finish(self):
        level = self.module.LEVEL
        cov = {
            "exhaustive": True,
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": self.module.RULE,
            "distinct_outcomes": len(self.outcomes),
            "parts": {
                k: {"cases": v["cases"], "distinct_outcomes": len(v["outcomes"])}
                for k, v in self.parts.items()
            },
            "samples": self.samples[:12],
        }
        if level == "model_checking":
            cov["states"] = len(self.states)
            cov["transitions"] = self.transitions
            cov["traces_validated_against_impl"] = self.traces
        if self.known_hits:
            cov["known_findings"] = dict(self.known_hits)
        if self.violations:
            cov["exhaustive"] = False
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": list(getattr(self.module, "ASSUMPTIONS", [])),
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        path = os.path.join(HERE, "evidence", f"{self.pid}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            json.dump(evidence, fp, indent=1, default=str)
        print(
            f"{self.pid} {self.tier}: {self.evaluations} executions, "
            f"{len(self.states)} states, {self.transitions} transitions, "
            f"{len(self.outcomes)} distinct outcomes, "
            f"{len(self.violations)} violations, {evidence['wall_s']} s"
        )
        return 1 if self.violations else 0


def _short(x, n=400):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def load_known(pid):
    """Read ``known_findings.txt``: lines ``finding: property=ID key=KEY text``."""
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if not line.startswith("finding:"):
                    continue
                parts = line.split(None, 3)
                if parts[1] != f"property={pid}":
                    continue
                known[parts[2].split("=", 1)[1]] = parts[3]
    return known


@contextlib.contextmanager
def scratch():
    """A private directory, removed afterwards, which becomes the cwd."""
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif-") as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(cwd)


product = itertools.product


def sequences(alphabet, depth, min_depth=1):
    """All operation sequences of length min_depth..depth, shortest first."""
    for n in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)
