"""Runs one check: generated cases through Hypothesis, regressions, replay, evidence.

A check module (checks/cXX.py) provides
  PROPERTY   the property id
  RULE       how cases are made and what makes one non-trivial
  strategy() a Hypothesis strategy of JSON-able cases
  run(case, rec)   raises lib.core.Violation (or lets an exception of the library out)
and optionally
  QUICK, THOROUGH      cases per worker that Hypothesis itself generates
  FAST                 seconds per worker of the fast stage (lib/fast.py): {"quick": s, "thorough": s}
  WORKERS_QUICK        worker processes in the quick tier (default 8)
  REGRESSIONS          cases run first, every time
  known()              yields (text, case): recorded findings, re-run every time
  extra(tier, seed, rec_case)  further, non-Hypothesis exploration (e.g. coverage guided fuzzing)
"""
from lib import bootstrap  # noqa: F401  isort:skip
import argparse
import contextlib
import importlib
import io
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from lib.bootstrap import REPO, VERIF
from lib.core import HarnessError, Recorder, Violation, case_hash

SHRINK_BUDGET_S = 60
CASE_LIMIT_S = 40
TIME_BUDGET_S = {"quick": 150, "thorough": 240}
FAST_S = {"quick": 10, "thorough": 330}
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # of the numbers of examples and seconds, for experiments
FAST_CASES = {"quick": 60000, "thorough": 10**9}


def describe(error):
    """(is_violation, message) for an exception raised by run()."""
    if isinstance(error, Violation):
        return True, str(error)
    if isinstance(error, HarnessError):
        return False, "harness: %s" % error
    frames = traceback.extract_tb(error.__traceback__)
    last_harness = max(
        (i for i, f in enumerate(frames) if f.filename.startswith(VERIF + os.sep)), default=-1
    )
    repo = [f for f in frames[last_harness + 1 :] if f.filename.startswith(os.path.join(REPO, "pyzwave") + os.sep)]
    text = "%s: %s" % (type(error).__name__, error)
    if repo:
        where = repo[-1]
        return True, "unexpected %s (raised in %s, %s)" % (
            text,
            os.path.relpath(where.filename, REPO),
            where.name,
        )
    return False, text + "\n" + "".join(traceback.format_exception(error))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = {}
        self.labels = {}
        self.samples = []
        self.excluded = 0
        self.fast_cases = 0
        self.fast_error = None

    def add(self, case, rec):
        self.evaluations += 1
        for name, count in rec.labels.items():
            entry = self.labels.setdefault(name, [0, 0])
            entry[0] += 1
            entry[1] += count
        if rec.interesting:
            key = case_hash(case)
            if key not in self.nontrivial:
                self.nontrivial[key] = 1
                size = len(json.dumps(case))
                if len(self.samples) < 40 and size < 4000:
                    self.samples.append((size, case))

    def dump(self):
        samples = sorted(self.samples, key=lambda s: s[0])
        picks = [samples[i][1] for i in sorted({len(samples) * k // 4 for k in range(4)})] if samples else []
        return {
            "evaluations": self.evaluations,
            "nontrivial": list(self.nontrivial),
            "labels": self.labels,
            "samples": picks,
            "fast_cases": self.fast_cases,
            "fast_error": self.fast_error,
        }


class Hang(KeyboardInterrupt):
    """A case takes far too long (a KeyboardInterrupt, so that asyncio lets it through)."""


class Hung(Violation):
    """As a violation; not shrunk, as each attempt would take as long."""


class Leave(BaseException):
    """Out of Hypothesis at once."""


case_started = [0.0, 0.0]


def on_alarm(_number, _frame):
    # A busy machine may leave this process next to no time
    if time.process_time() - case_started[0] > CASE_LIMIT_S / 2 or time.monotonic() - case_started[1] > 5 * CASE_LIMIT_S:
        raise Hang()


def execute(module, case, rec):
    """Run one case with stray prints of the library swallowed."""
    signal.signal(signal.SIGALRM, on_alarm)
    case_started[:] = time.process_time(), time.monotonic()
    # again every few seconds, in case the first one was swallowed
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S, 5)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            module.run(case, rec)
    except Hang:
        raise Hung("not done after %d s, where other cases take milliseconds" % CASE_LIMIT_S) from None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Failure(Exception):
    pass


def explore(module, seed, examples, budget, stats, choices=None):
    """Returns None or dict(case, message, history); with choices: shrinks the case they make."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import ExampleDatabase, choices_to_bytes

    class OneCase(ExampleDatabase):
        def fetch(self, key):
            return iter([choices_to_bytes(choices)] if key.endswith(b".secondary") else [])

        def save(self, key, value):
            pass

        def delete(self, key, value):
            pass

    state = {"first": None, "best": None, "fail_at": None, "history": []}
    start = time.monotonic()

    @hypothesis.seed(seed)
    @settings(
        max_examples=examples,
        database=None if choices is None else OneCase(),
        deadline=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate if choices is None else Phase.reuse, Phase.shrink),
        suppress_health_check=(
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ),
        verbosity=hypothesis.Verbosity.quiet,
    )
    @given(module.strategy())
    def body(case):
        now = time.monotonic()
        if state["first"] is None and now - start > budget:
            stats.excluded += 1
            return
        if state["fail_at"] is not None and now - state["fail_at"] > SHRINK_BUDGET_S:
            if case_hash(case) != state["best"]["hash"]:
                return
        rec = Recorder()
        if state["first"] is None:
            state["history"].append(case)
        try:
            execute(module, case, rec)
        except Exception as error:  # pylint: disable=broad-except
            violation, message = describe(error)
            if not violation:
                raise HarnessError("case %s\n%s" % (json.dumps(case), message)) from error
            if state["first"] is None:
                state["fail_at"] = now
                state["first"] = {"case": case, "message": message, "hash": case_hash(case)}
            state["best"] = {"case": case, "message": message, "hash": case_hash(case)}
            if isinstance(error, Hung):
                raise Leave() from None
            raise Failure() from None
        finally:
            if state["first"] is None:
                stats.add(case, rec)

    try:
        body()
    except (HarnessError, Leave) as error:
        if isinstance(error, HarnessError):
            raise
    except Exception as error:  # pylint: disable=broad-except
        if state["best"] is None:
            raise HarnessError("%s\n%s" % (error, traceback.format_exc())) from error
    if state["best"] is None:
        return None
    return {
        "case": state["best"]["case"],
        "message": state["best"]["message"],
        "first": state["first"]["case"],
        "first_message": state["first"]["message"],
        "history": state["history"][-3000:],
    }


def fast_stage(module, seed, seconds, limit, stats):
    """More cases from the same strategy, as fast as can be; returns as explore() does."""
    from lib import fast

    strategy = module.strategy()
    history = []
    end = time.monotonic() + seconds
    source = fast.cases(strategy, seed)
    done = 0
    while done < limit and time.monotonic() < end:
        try:
            case, choices = next(source)
        except StopIteration:
            break
        except Exception:  # pylint: disable=broad-except
            # another version of Hypothesis, say: what it generated itself has to do
            stats.fast_error = traceback.format_exc()
            break
        done += 1
        rec = Recorder()
        history.append(case)
        try:
            execute(module, case, rec)
        except Exception as error:  # pylint: disable=broad-except
            violation, message = describe(error)
            if not violation:
                raise HarnessError("case %s\n%s" % (json.dumps(case), message)) from error
            failure = {
                "case": case,
                "message": message,
                "first": case,
                "first_message": message,
                "history": history[-3000:],
            }
            if not isinstance(error, Hung):
                with contextlib.suppress(Exception):
                    shrunk = explore(module, seed, 10, SHRINK_BUDGET_S, Stats(), choices)
                    if shrunk is not None:
                        failure.update(case=shrunk["case"], message=shrunk["message"])
            stats.fast_cases += done
            return failure
        stats.add(case, rec)
    stats.fast_cases += done
    return None


def run_one(module, case):
    """None if the case passes, else the violation message."""
    try:
        execute(module, case, Recorder())
    except Exception as error:  # pylint: disable=broad-except
        violation, message = describe(error)
        if not violation:
            raise HarnessError("case %s\n%s" % (json.dumps(case), message)) from error
        return message
    return None


def corpus_cases(module):
    """Minimised cases that once failed; plain data, replayed before anything is generated."""
    path = pathlib.Path(VERIF) / "corpus" / ("%s.jsonl" % module.PROPERTY)
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip():
                yield json.loads(line)


def worker_main(module, args):
    stats = Stats()
    result = {"failure": None, "error": None}
    try:
        failure = None
        fixed = list(getattr(module, "REGRESSIONS", [])) + list(corpus_cases(module))
        if fixed:
            for case in fixed[args.worker :: args.workers]:
                case = json.loads(json.dumps(case))
                rec = Recorder()
                try:
                    execute(module, case, rec)
                except Exception as error:  # pylint: disable=broad-except
                    violation, message = describe(error)
                    if not violation:
                        raise HarnessError("case %s\n%s" % (json.dumps(case), message)) from error
                    failure = {"case": case, "message": message, "first": case, "first_message": message, "history": [case]}
                    break
                stats.add(case, rec)
        if failure is None:
            examples = int(SCALE * (module.QUICK if args.tier == "quick" else module.THOROUGH))
            failure = explore(module, args.seed * 1009 + args.worker, examples, TIME_BUDGET_S[args.tier], stats)
        if failure is None:
            seconds = SCALE * {**FAST_S, **getattr(module, "FAST", {})}[args.tier]
            failure = fast_stage(
                module, "%d fast %d" % (args.seed, args.worker), seconds, FAST_CASES[args.tier], stats
            )
        if failure is None and hasattr(module, "extra"):
            failure = module.extra(args.tier, args.seed * 1009 + args.worker, args.worker, stats)
        result["failure"] = failure
    except BaseException as error:  # pylint: disable=broad-except
        result["error"] = "%s\n%s" % (error, traceback.format_exc())
    result["stats"] = stats.dump()
    result["skipped_over_budget"] = stats.excluded
    pathlib.Path(args.out).write_text(json.dumps(result))
    return 0


def replay_fails(property_id, path):
    """Replay a file in a fresh process: 1 = violation, 0 = passes, other = error."""
    proc = subprocess.run(
        [sys.executable, os.path.join(VERIF, "check.py"), property_id, "--replay", str(path), "--quiet"],
        stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL,
        check=False,
        timeout=300,
    )
    return proc.returncode == 1


def write_replay(property_id, failure, seed):
    directory = pathlib.Path(VERIF) / "replays"
    directory.mkdir(exist_ok=True)
    for name, cases, message in (
        ("min", [failure["case"]], failure["message"]),
        ("first", [failure["first"]], failure["first_message"]),
        ("history", failure["history"], failure["first_message"]),
    ):
        path = directory / ("%s-%s-%s.json" % (property_id, name, case_hash(cases)))
        path.write_text(json.dumps({"property": property_id, "seed": seed, "message": message, "cases": cases}))
        with contextlib.suppress(subprocess.TimeoutExpired):
            if replay_fails(property_id, path):
                return path, message, name
        path.unlink()
    # Not reproducible on its own: keep the case all the same.
    path = directory / ("%s-unreproduced-%s.json" % (property_id, case_hash(failure["case"])))
    path.write_text(
        json.dumps({"property": property_id, "seed": seed, "message": failure["message"], "cases": failure["history"]})
    )
    return path, failure["message"], "unreproduced"


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    parser.add_argument("--replay")
    parser.add_argument("--quiet", action="store_true")
    parser.add_argument("--worker", type=int)
    parser.add_argument("--workers", type=int, default=1)
    parser.add_argument("--out")
    args = parser.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    started = time.monotonic()
    try:
        module = importlib.import_module("checks.%s" % args.property.lower())
    except Exception as error:  # pylint: disable=broad-except
        # The library (or a name of its interface) cannot even be imported.
        sys.stderr.write("harness error: cannot load the check: %s\n%s" % (error, traceback.format_exc()))
        return 2

    if args.replay:
        data = json.loads(pathlib.Path(args.replay).read_text())
        for case in data["cases"]:
            message = run_one(module, case)
            if message is not None:
                if not args.quiet:
                    print("case: %s" % json.dumps(case))
                    print("violated: %s" % message)
                print("VIOLATION property=%s replay=%s" % (args.property, args.replay))
                return 1
        print("replay passes")
        return 0

    if args.worker is not None:
        return worker_main(module, args)

    # recorded findings first
    known_lines = []
    for text, case in getattr(module, "known", lambda: ())():
        if run_one(module, case) is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (args.property, text))

    cores = os.cpu_count() or 4
    workers = min(getattr(module, "WORKERS_QUICK", 8) if args.tier == "quick" else 8, cores)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.property)
    try:
        procs = []
        for k in range(workers):
            out = os.path.join(scratch, "w%d.json" % k)
            cmd = [
                sys.executable,
                os.path.join(VERIF, "check.py"),
                args.property,
                "--tier",
                args.tier,
                "--seed",
                str(args.seed),
                "--worker",
                str(k),
                "--workers",
                str(workers),
                "--out",
                out,
            ]
            err = open(os.path.join(scratch, "w%d.err" % k), "w")  # pylint: disable=consider-using-with
            env = dict(os.environ, PYTHONHASHSEED="0", TMPDIR=scratch)
            procs.append((subprocess.Popen(cmd, stdout=err, stderr=err, env=env), out, err))
        results = []
        for proc, out, err in procs:
            proc.wait()
            err.close()
            if not os.path.exists(out):
                sys.stderr.write("harness error: worker gave no result\n%s\n" % open(err.name).read()[-4000:])
                return 2
            results.append(json.loads(pathlib.Path(out).read_text()))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    hashes = set()
    labels = {}
    samples = []
    evaluations = 0
    for result in results:
        evaluations += result["stats"]["evaluations"]
        hashes.update(result["stats"]["nontrivial"])
        for name, (cases, total) in result["stats"]["labels"].items():
            entry = labels.setdefault(name, {"cases": 0, "total": 0})
            entry["cases"] += cases
            entry["total"] += total
        samples.extend(result["stats"]["samples"])
    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["error"] for r in results if r["error"]]
    evidence = {
        "property": args.property,
        "tier": args.tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " ".join(module.RULE.split()),
            "samples": samples[:6],
            "labels": dict(sorted(labels.items())),
            "workers": workers,
            "cases_of_the_fast_stage": sum(r["stats"]["fast_cases"] for r in results),
            "skipped_over_time_budget": sum(r["skipped_over_budget"] for r in results),
            "known_findings": known_lines,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(failures),
    }
    path = pathlib.Path(VERIF) / "evidence" / ("%s.json" % args.property)
    path.parent.mkdir(exist_ok=True)
    path.write_text(json.dumps(evidence, indent=1))

    for text in {r["stats"]["fast_error"] for r in results} - {None}:
        sys.stderr.write("note: fast stage ended early\n%s\n" % text)
    for line in known_lines:
        print(line)
    if failures:
        failure = min(failures, key=lambda f: len(json.dumps(f["case"])))
        replay, message, kind = write_replay(args.property, failure, args.seed)
        print("case (%s): %s" % (kind, json.dumps(failure["case"])[:3000]))
        print("violated: %s" % message)
        print("VIOLATION property=%s replay=%s" % (args.property, replay))
        return 1
    if errors:
        sys.stderr.write("harness error:\n%s\n" % errors[0])
        return 2
    print(
        "ok property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs"
        % (args.property, evaluations, len(hashes), time.monotonic() - started)
    )
    return 0
