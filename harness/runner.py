"""Generated-input search: forks workers, attributes crashes and hangs, confirms and reports."""
from __future__ import annotations

import argparse
import glob
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
CASE_TIMEOUT = {"quick": 150.0, "thorough": 400.0}
BUDGET = {"quick": 420.0, "thorough": 3300.0}
SHRINK_SECONDS = 40


def _load(pid):
    mods = sorted(glob.glob(os.path.join(HERE, "props", f"{pid.lower()}_*.py")))
    if len(mods) != 1:
        raise SystemExit(f"unknown property {pid}")
    return importlib.import_module("props." + os.path.basename(mods[0])[:-3])


def _corpus(pid):
    path = os.path.join(HERE, "corpus", f"{pid}.jsonl")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


class _Case:
    """Runs one spec and keeps the statistics of a worker."""

    def __init__(self, facet, current):
        from .core import Recorder

        self.facet = facet
        self.current = current
        self.Recorder = Recorder
        self.evaluations = 0
        self.hashes = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.t0 = time.time()
        self.slowest = 0.0

    def __call__(self, spec, count=True):
        from .core import Violation, digest

        with open(self.current, "w") as f:
            json.dump({"facet": self.facet.name, "spec": spec, "t": time.time()}, f)

        spec = json.loads(json.dumps(spec))  # oracle and replay see the same thing
        rec = self.Recorder()
        t0 = time.time()

        try:
            self.facet.check(spec, rec)

        except Exception as e:
            tb = traceback.format_exc()
            kind = "" if isinstance(e, Violation) else f"unexpected {type(e).__name__}: "
            self.failure = {
                "facet": self.facet.name,
                "spec": spec,
                "message": kind + str(e)[:2000],
                "traceback": tb[-4000:],
            }
            raise

        self.slowest = max(self.slowest, time.time() - t0)

        if count:
            self.evaluations += 1
            h = digest(spec)
            new = h not in self.hashes
            self.hashes.add(h)
            for label in rec.labels:
                self.labels[label] = self.labels.get(label, 0) + 1
            if rec.nontrivial_flag and h not in self.nontrivial:
                self.nontrivial.add(h)
                if new and len(self.samples) < 3:
                    text = json.dumps(spec)
                    self.samples.append(spec if len(text) < 1500 else text[:1500] + "...")

    def result(self, status, **kw):
        return {
            "status": status,
            "facet": self.facet.name,
            "evaluations": self.evaluations,
            "hashes": sorted(self.hashes),
            "nontrivial": sorted(self.nontrivial),
            "labels": self.labels,
            "samples": self.samples,
            "slowest": self.slowest,
            "wall": time.time() - self.t0,
            **kw,
        }


def _search(facet, seed, n, current, deadline):
    """One shard of generated cases for a facet."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.errors import Flaky, FlakyFailure
    from hypothesis.internal.conjecture import engine, providers

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    # Cases must not depend on literals found in the source of the code under test.
    if hasattr(providers, "_get_local_constants"):
        empty = type(providers._get_local_constants())()
        providers._get_local_constants = lambda: empty

    case = _Case(facet, current)
    out_of_time = []

    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet,
    )
    @hypothesis.seed(seed)
    @hypothesis.given(facet.strategy)
    def search(spec):
        if time.time() > deadline:
            out_of_time.append(1)
            return
        case(spec)

    try:
        search()

    except BaseException as e:
        if case.failure is not None:
            return case.result("violation", failure=case.failure)
        return case.result("error", error="".join(traceback.format_exception(e))[-4000:])

    return case.result("ok", truncated=len(out_of_time))


def _fixed(facet, specs, current):
    case = _Case(facet, current)
    for spec in specs:
        try:
            case(spec)
        except Exception:
            return case.result("violation", failure=case.failure)
    return case.result("ok", truncated=0)


def _spawn(fn, out):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        os.setpgid(0, 0)
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        res = fn()
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(out + ".tmp", out)
        code = 0
    except BaseException:
        try:
            with open(out + ".err", "w") as f:
                f.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(code)


def _kill(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass


class Pool:
    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.n = 0

    def run_one(self, make, timeout):
        """Run make(current)() in a fork; return (result | crash | hang | error)."""
        res = []
        self.run([("one", make)], lambda key, r: res.append(r) or False, 1, timeout)
        return res[0]

    def run(self, tasks, done, ncpu, timeout=None):
        timeout = timeout or CASE_TIMEOUT[self.tier]
        tasks = list(tasks)[::-1]
        live = {}
        try:
            while tasks or live:
                while tasks and len(live) < ncpu:
                    key, make = tasks.pop()
                    self.n += 1
                    base = os.path.join(self.scratch, f"t{self.n}")
                    pid = _spawn(make(base + ".cur"), base + ".out")
                    live[pid] = (key, base, time.time())
                try:
                    pid, status = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError:
                    pid = 0
                if pid in live:
                    key, base, _ = live.pop(pid)
                    if done(key, self._collect(base, status)):
                        return
                    continue
                now = time.time()
                for pid, (key, base, t0) in list(live.items()):
                    try:
                        mtime = os.path.getmtime(base + ".cur")
                    except OSError:
                        mtime = t0
                    if now - max(mtime, t0) > timeout:
                        _kill(pid)
                        os.waitpid(pid, 0)
                        live.pop(pid)
                        if done(key, {"status": "hang", **self._current(base)}):
                            return
                time.sleep(0.02)
        finally:
            for pid in live:
                _kill(pid)
            for pid in live:
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass

    def _current(self, base):
        try:
            with open(base + ".cur") as f:
                d = json.load(f)
            return {"current": {"facet": d["facet"], "spec": d["spec"]}}
        except Exception:
            return {"current": None}

    def _collect(self, base, status):
        if os.path.exists(base + ".out"):
            with open(base + ".out") as f:
                return json.load(f)
        err = ""
        if os.path.exists(base + ".err"):
            err = open(base + ".err").read()
        if os.WIFSIGNALED(status):
            return {"status": "crash", "signal": os.WTERMSIG(status), **self._current(base)}
        return {"status": "error", "error": err or f"worker status {status}"}


def _facet(mod, name):
    for f in mod.FACETS:
        if f.name == name:
            return f
    raise KeyError(name)


def _describe(r):
    if r["status"] == "violation":
        return r["failure"]["message"]
    if r["status"] == "crash":
        return f"process killed by signal {r['signal']}"
    return "call did not terminate"


def _confirm(pool, mod, facet_name, spec, tries=2):
    """Replay one spec in a fresh process."""
    facet = _facet(mod, facet_name)
    for _ in range(tries):
        r = pool.run_one(
            lambda cur: (lambda: _fixed(facet, [spec], cur)), CASE_TIMEOUT[pool.tier] * 1.5
        )
        if r["status"] in {"violation", "crash", "hang"}:
            return r
        if r["status"] == "error":
            return r
    return None


def _write_replay(pid, doc):
    from .core import digest

    folder = os.path.join(EVIDENCE, "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}-{digest(doc)}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in BUDGET else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property
    t0 = time.time()

    try:
        from . import boot  # noqa: F401

        mod = _load(pid)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"ERROR property={pid} could not load the check or the code under test")
        return 2

    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    tempfile.tempdir = scratch
    try:
        pool = Pool(scratch, tier)
        if a.replay:
            return _replay(pid, mod, pool, a.replay)
        return _check(pid, mod, pool, tier, seed, a, t0)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid} harness failure")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _replay(pid, mod, pool, path):
    with open(path) as f:
        doc = json.load(f)
    if doc.get("kind") == "task":
        facet = _facet(mod, doc["facet"])
        r = pool.run_one(
            lambda cur: (
                lambda: _search(facet, doc["seed"], doc["examples"], cur, time.time() + 3000)
            ),
            400,
        )
    else:
        r = _confirm(pool, mod, doc["facet"], doc["spec"])
    if r is None or r["status"] == "ok":
        print(f"replay of {path}: property {pid} holds")
        return 0
    if r["status"] == "error":
        print(r["error"])
        return 2
    print(f"replay of {path}: {_describe(r)}")
    if r["status"] == "violation":
        print(r["failure"]["traceback"])
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def _check(pid, mod, pool, tier, seed, a, t0):
    budget = a.budget or BUDGET[tier]
    deadline = t0 + budget
    ncpu = max(1, min(8, os.cpu_count() or 1))
    tasks, meta = [], {}

    corpus = {}
    for line in _corpus(pid):
        corpus.setdefault(line["facet"], []).append(line["spec"])

    facets = [f for f in mod.FACETS if not a.facet or f.name == a.facet]
    for facet in facets:
        if corpus.get(facet.name):
            key = (facet.name, "corpus")
            specs = corpus[facet.name]
            meta[key] = None
            tasks.append((key, lambda cur, f=facet, s=specs: (lambda: _fixed(f, s, cur))))

    shards = []
    for facet in facets:
        total = max(1, int((facet.quick if tier == "quick" else facet.thorough) * a.scale))
        k = max(1, min(ncpu if tier == "quick" else 2 * ncpu, total // 60))
        for i in range(k):
            n = total // k + (1 if i < total % k else 0)
            s = zlib.crc32(f"{pid}/{facet.name}/{i}/{seed}".encode()) & 0x7FFFFFFF
            shards.append((i, facet, n, s))
    for i, facet, n, s in sorted(shards, key=lambda x: x[0]):
        key = (facet.name, i)
        meta[key] = (facet, n, s)
        tasks.append(
            (key, lambda cur, f=facet, n=n, s=s: (lambda: _search(f, s, n, cur, deadline)))
        )

    results, suspects, errors = [], [], []

    def done(key, r):
        if a.v:
            print(key, r["status"], r.get("evaluations"), f"{r.get('wall', 0):.1f}s", flush=True)
        if r["status"] == "ok":
            results.append(r)
            return False
        if r["status"] == "error":
            errors.append((key, r))
            return False
        suspects.append((key, r))
        results.append(r) if r["status"] == "violation" else None
        return True

    notes = []
    pending = tasks
    violation = None
    finished = set()

    def done_(key, r):
        finished.add(key)
        return done(key, r)

    while pending and violation is None:
        pool.run(pending, done_, ncpu)
        if not suspects:
            break
        key, r = suspects.pop()
        failing = r.get("failure") or r.get("current")
        confirmed = _confirm(pool, mod, failing["facet"], failing["spec"]) if failing else None
        if confirmed is not None and confirmed["status"] != "error":
            violation = (
                {
                    "kind": "spec",
                    "property": pid,
                    "facet": failing["facet"],
                    "spec": failing["spec"],
                    "message": _describe(confirmed),
                },
                confirmed,
            )
            break
        # The single case does not fail alone: does the whole history fail again?
        if meta.get(key):
            facet, n, s = meta[key]
            again = pool.run_one(
                lambda cur: (lambda: _search(facet, s, n, cur, time.time() + 600)), 300
            )
            if again["status"] in {"violation", "crash"}:
                violation = (
                    {
                        "kind": "task",
                        "property": pid,
                        "facet": facet.name,
                        "seed": s,
                        "examples": n,
                        "message": "only after the preceding cases: " + _describe(again),
                    },
                    again,
                )
                break
            if again["status"] == "ok":
                results.append(again)
        notes.append(f"{key}: {_describe(r)} did not reproduce")
        pending = [t for t in pending if t[0] not in finished]

    evaluations = sum(r["evaluations"] for r in results)
    distinct, labels, samples, per_facet = set(), {}, [], {}
    for r in results:
        distinct.update((r["facet"], h) for h in r["nontrivial"])
        d = per_facet.setdefault(
            r["facet"],
            {"evaluations": 0, "nontrivial": set(), "distinct": set(), "labels": {}, "slowest_s": 0.0, "truncated": 0},
        )
        d["evaluations"] += r["evaluations"]
        d["nontrivial"].update(r["nontrivial"])
        d["distinct"].update(r["hashes"])
        d["truncated"] += r.get("truncated", 0)
        d["slowest_s"] = round(max(d["slowest_s"], r["slowest"]), 3)
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        if sum(1 for s in samples if s["facet"] == r["facet"]) < 2:
            samples += [{"facet": r["facet"], "case": s} for s in r["samples"][:1]]
    for f in facets:
        d = per_facet.get(f.name)
        if d:
            d["nontrivial"] = len(d["nontrivial"])
            d["distinct"] = len(d["distinct"])
            d["labels"] = dict(sorted(d["labels"].items()))
            d["rule"] = f.rule

    doc = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples,
            "facets": per_facet,
            "notes": notes,
            "corpus_cases": sum(len(v) for v in corpus.values()),
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }

    code = 0
    if violation is not None:
        replay = {k: v for k, v in violation[0].items()}
        path = _write_replay(pid, replay)
        doc["violations"] = 1
        doc["coverage"]["violation"] = {"replay": path, "message": replay["message"]}
        print(f"{pid}: {replay['message']}")
        if violation[1]["status"] == "violation":
            print(violation[1]["failure"]["traceback"])
        print(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif errors:
        for key, r in errors:
            print(f"ERROR property={pid} {key}: {r['error']}")
        code = 2

    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
        f"{time.time() - t0:.1f} s, exit {code}" + (f", notes {notes}" if notes else "")
    )
    return code
