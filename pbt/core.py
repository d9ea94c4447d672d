"""Runner for the property-based checks.

A check module (pbt/checks/cNN.py) defines SUBS, a list of Sub objects.  Each
Sub has a Hypothesis strategy producing *plain data* (JSON-able) cases and a
function ``fn(case, t)`` that builds objects of the code under test from the
case, exercises them and asserts.  Because the case is plain data the shrunk
failure is saved verbatim as the replay file, and replaying it needs neither
Hypothesis nor a seed.
"""

from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
OUT = Path(os.environ.get("PBT_OUT", VERIF / "out"))
EVIDENCE = OUT / "evidence" if "PBT_OUT" in os.environ else VERIF / "evidence"
CORPUS = VERIF / "corpus"
KNOWN = VERIF / "known_findings.json"


class Rejected(Exception):
    """The drawn case is outside the domain of the property."""


class Violation(AssertionError):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy  # zero-argument callable, or a strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.rule = rule


class Tally:
    """Counts what a run really generated."""

    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.skipped = 0
        self.nontrivial = {}
        self.labels = {}
        self.samples = []
        self.known = {}
        self._cur_nt = False

    # -- used by check functions
    def nt(self, flag=True):
        self._cur_nt = self._cur_nt or bool(flag)

    def label(self, name, flag=True):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + 1

    def reject(self, why=""):
        raise Rejected(why)

    def known_finding(self, key, what):
        """A deviation listed in known_findings.json; otherwise a violation."""
        if key in KNOWN_KEYS:
            self.known[key] = what
        else:
            raise Violation(what, key)

    # -- used by the runner
    def begin(self):
        self._cur_nt = False

    def end(self, case):
        self.evaluations += 1
        if self._cur_nt:
            h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial[h] = 1
                n = len(self.nontrivial)
                if n in (3, 40, 200) and len(self.samples) < 3:
                    self.samples.append(case)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.rejected += other.rejected
        self.skipped += other.skipped
        self.nontrivial.update(other.nontrivial)
        for k, v in other.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        self.samples = (self.samples + other.samples)[:3]
        self.known.update(other.known)


KNOWN_KEYS = {}


def load_known(prop):
    KNOWN_KEYS.clear()
    if KNOWN.exists():
        for e in json.loads(KNOWN.read_text())["findings"]:
            if e["property"] == prop and e["status"] == "known":
                KNOWN_KEYS[e["key"]] = e["what"]


def _default(o):
    import numpy as np

    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, tuple)):
        return list(o)
    raise TypeError(type(o))


def dumps(obj):
    return json.dumps(obj, default=_default, sort_keys=True, ensure_ascii=True)


def norm(case):
    """What the case looks like after a trip through the replay file."""
    return json.loads(dumps(case))


def derived_seed(*parts):
    return int.from_bytes(
        hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:6], "big"
    )


def run_case(sub, case, tally):
    """One evaluation, independent of Hypothesis."""
    import warnings

    import numpy as np

    tally.begin()
    np.random.seed(12345)
    # A case takes milliseconds; one that does not come back is a failure.
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            sub.fn(norm(case), tally)
    finally:
        signal.alarm(0)
    tally.end(case)


CASE_TIMEOUT = 60


def _on_alarm(signum, frame):
    raise Violation(f"no result within {CASE_TIMEOUT} s")


def run_sub(sub, n, seed, deadline):
    """Generate n cases for one sub-check; returns (tally, failure or None)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 60

    tally = Tally()
    last = {}

    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy

    @hypothesis.seed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
        phases=[Phase.generate] if os.environ.get("PBT_NO_SHRINK") else [Phase.generate, Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(strategy)
    def prop(case):
        if time.monotonic() > deadline and not last:
            tally.skipped += 1
            return
        try:
            run_case(sub, case, tally)
        except Rejected:
            tally.rejected += 1
            hypothesis.reject()
        except hypothesis.errors.HypothesisException:
            raise
        except BaseException as e:  # every failure of the exercised code counts
            if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
                raise
            last["case"] = norm(case)
            last["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )
            last["summary"] = f"{type(e).__name__}: {e}"[:600]
            raise

    try:
        prop()
    except BaseException as e:
        if not last:
            raise
        last["how"] = type(e).__name__
        return tally, dict(last, sub=sub.name)
    return tally, None


def worker(args):
    subs, tier, seed, k, nworkers, deadline = args
    out = []
    for i, sub in enumerate(subs):
        total = sub.quick if tier == "quick" else sub.thorough
        n = max(1, math.ceil(total / nworkers))
        # share out what remains of the budget
        left = deadline - time.monotonic()
        sub_deadline = time.monotonic() + max(5.0, left / max(1, len(subs) - i) * 2.0)
        sub_deadline = min(sub_deadline, deadline)
        tally, fail = run_sub(
            sub, n, derived_seed(seed, sub.name, k), sub_deadline
        )
        out.append((i, tally, fail))
        if fail:
            break
    return out


def record_lines(k):
    """PBT_LINES=DIR: note the lines of pystrata each sub-check reaches (tools/mutate.py)."""
    folder = os.environ.get("PBT_LINES")
    if not folder:
        return
    seen = set()

    def local(frame, event, arg):
        seen.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def trace(frame, event, arg):
        return local if "/pystrata/" in frame.f_code.co_filename else None

    sys.settrace(trace)
    global dump_lines
    name = os.path.join(folder, f"{os.getpid()}-{k}.json")
    dump_lines = lambda: Path(name).write_text(json.dumps(sorted({(os.path.basename(f), n) for f, n in seen})))  # noqa: E731


def dump_lines():
    pass


def fork_workers(subs, tier, seed, nworkers, budget):
    """Fork after the code under test is imported and warmed up."""
    deadline = time.monotonic() + budget
    results, errors = [], []
    pids = []
    tmp = tempfile.mkdtemp(prefix="pbt-")
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(nworkers):
        fn = os.path.join(tmp, f"{k}.pkl")
        pid = os.fork()
        if pid == 0:
            code = 0
            record_lines(k)
            try:
                res = worker((subs, tier, seed, k, nworkers, deadline))
                payload = ("ok", res)
            except BaseException:
                payload = ("error", traceback.format_exc())
                code = 1
            try:
                with open(fn, "wb") as fp:
                    pickle.dump(payload, fp)
                dump_lines()
            finally:
                os._exit(code)
        pids.append((pid, fn))
    for pid, fn in pids:
        os.waitpid(pid, 0)
        try:
            with open(fn, "rb") as fp:
                kind, res = pickle.load(fp)
            os.unlink(fn)
        except Exception:
            errors.append("worker died without a result")
            continue
        (results if kind == "ok" else errors).append(res)
    os.rmdir(tmp) if not os.listdir(tmp) else None
    return results, errors


def write_evidence(prop, tier, seed, mod, tallies, wall, violations):
    total = Tally()
    subs = {}
    nontriv = 0
    samples = []
    for name, t in tallies.items():
        total.evaluations += t.evaluations
        nontriv += len(t.nontrivial)
        samples += [{"sub": name, "case": c} for c in t.samples[:2]]
        subs[name] = {
            "evaluations": t.evaluations,
            "distinct_nontrivial": len(t.nontrivial),
            "rejected": t.rejected,
            "skipped_over_budget": t.skipped,
            "labels": dict(sorted(t.labels.items())),
        }
    samples = samples[:12]
    if not samples:
        samples = ["no non-trivial case sampled"]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": nontriv,
            "rule": mod.RULE,
            "samples": samples,
            "subchecks": subs,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / f"{prop}.json").write_text(
        json.dumps(ev, default=_default, indent=1) + "\n"
    )
    return ev


def report(prop, fail, seed):
    rep = OUT / "replays"
    rep.mkdir(parents=True, exist_ok=True)
    path = rep / f"{prop}-{fail['sub'].replace(' ', '_')}.json"
    path.write_text(
        json.dumps(
            {
                "property": prop,
                "sub": fail["sub"],
                "seed": seed,
                "summary": fail["summary"],
                "case": fail["case"],
                "how_to_replay": f"cd {VERIF} && ./check {prop} --replay {path}",
                "traceback": fail["error"],
            },
            indent=1,
        )
        + "\n"
    )
    print(f"sub-check {fail['sub']}: {fail['summary']}")
    print(f"  case: {dumps(fail['case'])[:1500]}")
    print(f"VIOLATION property={prop} replay={path}", flush=True)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run one sub-check")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.monotonic()
    load_known(prop)

    mod = importlib.import_module(f"pbt.checks.{prop.lower()}")
    subs = [s for s in mod.SUBS if not a.only or s.name == a.only]
    by_name = {s.name: s for s in subs}
    if hasattr(mod, "warmup"):
        try:
            mod.warmup()
        except Exception as e:  # the cases below meet the same failure
            print(f"warm-up failed: {type(e).__name__}: {e}", file=sys.stderr)

    if a.replay:
        data = json.loads(Path(a.replay).read_text())
        try:
            run_case(by_name[data["sub"]], data["case"], Tally())
        except Rejected as e:
            print("case is outside the property's domain:", e)
            return 0
        except Exception as e:
            traceback.print_exc()
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay passes")
        return 0

    tallies = {s.name: Tally() for s in subs}
    failure = None

    # Saved regression inputs first.
    for path in sorted((CORPUS / prop).glob("*.json")):
        data = json.loads(path.read_text())
        sub = by_name.get(data["sub"])
        if sub is None:
            continue
        try:
            run_case(sub, data["case"], tallies[sub.name])
            tallies[sub.name].label("corpus")
        except Rejected:
            pass
        except Exception as e:
            failure = {
                "sub": sub.name,
                "case": data["case"],
                "error": traceback.format_exc(),
                "summary": f"[corpus {path.name}] {type(e).__name__}: {e}"[:600],
            }
            break

    errors = []
    if failure is None:
        if a.scale != 1.0:
            for s in subs:
                s.quick = max(1, int(s.quick * a.scale))
                s.thorough = max(1, int(s.thorough * a.scale))
        nworkers = a.workers or (6 if tier == "quick" else 8)
        budget = 240 if tier == "quick" else 780
        results, errors = fork_workers(subs, tier, seed, nworkers, budget)
        fails = []
        for res in results:
            for i, t, f in res:
                tallies[subs[i].name].merge(t)
                if f:
                    fails.append((i, len(dumps(f["case"])), f))
        if fails:
            failure = min(fails, key=lambda x: x[:2])[2]

    wall = time.monotonic() - t0
    ev = write_evidence(prop, tier, seed, mod, tallies, wall, 1 if failure else 0)
    for name, t in tallies.items():
        for key, what in sorted(t.known.items()):
            print(f"KNOWN-FINDING: property={prop} [{key}] {KNOWN_KEYS[key]}")
    if a.stats:
        print(json.dumps(ev["coverage"]["subchecks"], indent=1))
    if failure:
        report(prop, failure, seed)
        return 1
    if errors:
        print("HARNESS ERROR (%d workers):" % len(errors), file=sys.stderr)
        print("\n".join(str(errors[0]).splitlines()[-14:]), file=sys.stderr)
        return 3
    cov = ev["coverage"]
    if not cov["distinct_nontrivial"] and not a.only:
        print("HARNESS ERROR: no non-trivial case was generated", file=sys.stderr)
        return 3
    skipped = sum(t.skipped for t in tallies.values())
    print(
        f"{prop} {tier} seed={seed}: held on {cov['evaluations']} cases "
        f"({cov['distinct_nontrivial']} distinct non-trivial"
        + (f", {skipped} skipped over budget" if skipped else "")
        + f") in {wall:.1f}s"
    )
    return 0
